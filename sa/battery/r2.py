M='src/material.cc'; RT='src/res_tracker.cc'; P='src/product.cc'; C='src/composition.cc'; CM='src/comp_math.cc'; R='src/recorder.cc'; MH='src/material.h'; RH='src/recorder.h'; RTH='src/res_tracker.h'
V=[]
def v(name,*e): V.append((name,None,list(e)))
v('mat1',
 (M,'''  if (comp_ != c) {
    CompMap v(comp_->mass());
    compmath::Normalize(&v, qty_);
    CompMap otherv(c->mass());
    compmath::Normalize(&otherv, qty);
    CompMap newv = compmath::Sub(v, otherv);
    compmath::ApplyThreshold(&newv, threshold);
    comp_ = Composition::CreateFromMass(newv);
  }
''','''  if (comp_ != c) {
    CompMap otherv = ScaledMass(c, qty);
    CompMap remaining = compmath::Sub(ScaledMass(comp_, qty_), otherv);
    compmath::ApplyThreshold(&remaining, threshold);
    comp_ = Composition::CreateFromMass(remaining);
  }
'''),
 (M,'''Resource::Ptr Material::ExtractRes(double qty) {''','''namespace {
CompMap ScaledMass(Composition::Ptr c, double qty) {
  CompMap v(c->mass());
  compmath::Normalize(&v, qty);
  return v;
}
}  // namespace

Resource::Ptr Material::ExtractRes(double qty) {'''),
 (M,'''    CompMap v(c0->mass());
    compmath::Normalize(&v, qty_);
    CompMap otherv(c1->mass());
    compmath::Normalize(&otherv, mat->qty_);
    comp_ = Composition::CreateFromMass(compmath::Add(v, otherv));''','''    CompMap mine = ScaledMass(c0, qty_);
    CompMap theirs = ScaledMass(c1, mat->qty_);
    CompMap sum = compmath::Add(mine, theirs);
    comp_ = Composition::CreateFromMass(sum);'''),
 (M,'''  if (qty_ < mat->qty_) {
    prev_decay_time_ = mat->prev_decay_time_;
  }

  qty_ += mat->qty_;
  mat->qty_ = 0;''','''  const double added = mat->qty_;
  prev_decay_time_ = (added > qty_) ? mat->prev_decay_time_ : prev_decay_time_;
  qty_ = qty_ + added;
  mat->qty_ = 0.0;'''),
 (M,'''  if (ctx_ != NULL && ctx_->time() > prev_decay_time_) {
    prev_decay_time_ = ctx_->time();
  }
''','''  if (ctx_ != NULL) {
    prev_decay_time_ = std::max(prev_decay_time_, ctx_->time());
  }
'''),
)
v('mat2',
 (M,'''  if (new_package_name == package_name_ || ctx_ == NULL) {
    // no change needed
    return;
  }
  else if (new_package_name == Package::unpackaged_name()) {
    // unpackaged has functionally no restrictions
    package_name_ = new_package_name;
    tracker_.Package();
    return;
  }

  Package::Ptr p = ctx_->GetPackage(new_package_name);
  double min = p->fill_min();
  double max = p->fill_max();
  if (qty_ >= min && qty_ <= max) {
    package_name_ = new_package_name;
  } else {
    throw ValueError("Material quantity is outside of package fill limits.");
  }
  tracker_.Package();''','''  bool unchanged = ctx_ == NULL || package_name_ == new_package_name;
  if (unchanged) return;
  if (new_package_name != Package::unpackaged_name()) {
    Package::Ptr p = ctx_->GetPackage(new_package_name);
    if (qty_ < p->fill_min() || qty_ > p->fill_max()) {
      throw ValueError("Material quantity is outside of package fill limits.");
    }
  }
  package_name_ = new_package_name;
  tracker_.Package();'''),
 (M,'''  if (ctx_ != NULL && ctx_->sim_info().decay == "never") {
    return;
  } else if (curr_time < 0 && ctx_ == NULL) {
    throw ValueError("decay cannot use default time with NULL context");
  }

  if (curr_time < 0) {
    curr_time = ctx_->time();
  }

  int dt = curr_time - prev_decay_time_;
  if (dt == 0) {
    return;
  }
''','''  if (ctx_ != NULL && ctx_->sim_info().decay == "never") return;
  if (curr_time < 0) {
    if (ctx_ == NULL) {
      throw ValueError("decay cannot use default time with NULL context");
    }
    curr_time = ctx_->time();
  }

  if (curr_time == prev_decay_time_) {
    return;
  }
  const int dt = curr_time - prev_decay_time_;
'''),
 (M,'''  uint64_t secs_per_timestep = kDefaultTimeStepDur;
  if (ctx_ != NULL) {
    secs_per_timestep = ctx_->sim_info().dt;
  }
''','''  const uint64_t secs_per_timestep =
      ctx_ == NULL ? kDefaultTimeStepDur : ctx_->sim_info().dt;
'''),
 (M,'''    CompMap::const_reverse_iterator it;
    for (it = c.rbegin(); it != c.rend(); ++it) {
      int nuc = it->first;
      double lambda_timesteps = pyne::decay_const(nuc) * static_cast<double>(secs_per_timestep);
      double change = 1.0 - std::exp(-lambda_timesteps * static_cast<double>(dt));
      if (change >= eps) {
        decay = true;
        break;
      }
    }
    if (!decay) {
      return;
    }
  }
''','''    for (CompMap::const_reverse_iterator it = c.rbegin(); it != c.rend() && !decay; ++it) {
      double lambda_timesteps = pyne::decay_const(it->first) * static_cast<double>(secs_per_timestep);
      double change = 1.0 - std::exp(-lambda_timesteps * static_cast<double>(dt));
      decay = change >= eps;
    }
  }
  if (!decay) {
    return;
  }
'''),
 (M,'''  prev_decay_time_ = curr_time; // this must go before Transmute call
  Composition::Ptr decayed = comp_->Decay(dt, secs_per_timestep);
  Transmute(decayed);''','''  Composition::Ptr decayed = comp_->Decay(dt, secs_per_timestep);
  prev_decay_time_ = curr_time; // this must go before Transmute call
  Transmute(decayed);'''),
 (M,'''  for (auto nuc : dec_heat) {
    if (!std::isnan(nuc.second)) {
      decay_heat += nuc.second;
    }
  }''','''  for (const auto& entry : dec_heat) {
    const double heat = entry.second;
    if (std::isnan(heat)) continue;
    decay_heat += heat;
  }'''),
 (M,'''    : qty_(quantity),
      comp_(c),
      tracker_(ctx, this),
      ctx_(ctx),
      prev_decay_time_(0),
      package_name_(package_name) {
  if (ctx != NULL) {
    prev_decay_time_ = ctx->time();
  } else {
    tracker_.DontTrack();
  }
}''','''    : qty_(quantity),
      comp_(c),
      tracker_(ctx, this),
      ctx_(ctx),
      prev_decay_time_(ctx != NULL ? ctx->time() : 0),
      package_name_(package_name) {
  if (ctx == NULL) {
    tracker_.DontTrack();
  }
}'''),
)
v('mat3',
 (M,'''      double change = 1.0 - std::exp(-lambda_timesteps * static_cast<double>(dt));
      if (change >= eps) {
        decay = true;
        break;
      }
    }
    if (!decay) {
      return;
    }
  }

  prev_decay_time_ = curr_time; // this must go before Transmute call
  Composition::Ptr decayed = comp_->Decay(dt, secs_per_timestep);
  Transmute(decayed);
''','''      double change = 1.0 - std::exp(-lambda_timesteps * static_cast<double>(dt));
      if (change >= eps) {
        decay = true;
        break;
      }
    }
  }

  if (decay) {
    prev_decay_time_ = curr_time; // this must go before Transmute call
    Transmute(comp_->Decay(dt, secs_per_timestep));
  }
'''),
 (M,'''  qty_ -= qty;
  Material::Ptr other(new Material(ctx_, qty, c, Package::unpackaged_name()));

  // Decay called on the extracted material should have the same dt as for
  // this material regardless of composition.
  other->prev_decay_time_ = prev_decay_time_;
''','''  Material::Ptr other(new Material(ctx_, qty, c, Package::unpackaged_name()));
  qty_ -= qty;

  // Decay called on the extracted material should have the same dt as for
  // this material regardless of composition.
  other->prev_decay_time_ = this->prev_decay_time_;
'''),
)
v('rt1',
 (RT,'''  if (!tracked_) {
    return;
  }

  if (res_->quantity() > eps_rsrc()) {
    parent1_ = res_->state_id();
    parent2_ = 0;
  }

  // removed parent must be set before the resource is recorded, otherwise
  // removed ends up with parent1 of the other child (which is this resource
  // after being bumped)
  removed->parent1_ = res_->state_id();
  removed->parent2_ = 0;
  removed->Record();

  if (res_->quantity() > eps_rsrc()) {
    Record();
  }
''','''  if (tracked_) {
    const int parent = res_->state_id();
    const bool leftover = res_->quantity() > eps_rsrc();
    removed->SetParents(parent, 0);
    removed->Record();
    if (leftover) {
      SetParents(parent, 0);
      Record();
    }
  }
'''),
 (RTH,'''  void Record(bool bumpId = true);''','''  void Record(bool bumpId = true);
  void SetParents(int p1, int p2);'''),
 (RT,'''void ResTracker::DontTrack() {''','''void ResTracker::SetParents(int p1, int p2) {
  parent1_ = p1;
  parent2_ = p2;
}

void ResTracker::DontTrack() {'''),
 (RT,'''  parent1_ = res_->state_id();
  parent2_ = absorbed->res_->state_id();
  Record();''','''  SetParents(res_->state_id(), absorbed->res_->state_id());
  Record();'''),
 (RT,'''  if (parent != NULL) {
    parent1_ = parent->res_->state_id();
    
    // Resource was just created, with packaging info, and assigned a state id. 
    // Do not need to bump again
    bool bumpId = false;
    Record(bumpId);
  } else {
    // Resource was not just created. It is being re-packaged. It needs to be
    // bumped to get a new state id.
    parent1_ = res_->state_id();
    Record();
  }
''','''  const bool repackaged = parent == NULL;
  Resource* source = repackaged ? res_ : parent->res_;
  parent1_ = source->state_id();
  Record(repackaged);
'''),
 (RT,'''  parent1_ = 0;
  parent2_ = 0;
  bool bumpId = false;
  Record(bumpId);''','''  parent1_ = parent2_ = 0;
  Record(false);'''),
)
v('prod1',
 (P,'''  if (other->quality() != quality()) {
    throw ValueError("incompatible resource types.");
  }
  quantity_ += other->quantity();
  other->quantity_ = 0;
''','''  if (!(other->quality_ == quality_)) {
    throw ValueError("incompatible resource types.");
  }
  double moved = 0;
  std::swap(moved, other->quantity_);
  quantity_ += moved;
'''),
 (P,'''  if (quantity_ >= min && quantity_ <= max) {
    package_name_ = new_package_name;
    tracker_.Package();
  } else {
    throw ValueError("Product quantity is outside of package fill limits.");
  }''','''  bool fits = quantity_ >= min && quantity_ <= max;
  if (!fits) {
    throw ValueError("Product quantity is outside of package fill limits.");
  }
  package_name_ = new_package_name;
  tracker_.Package();'''),
 (P,'''  Product* g = new Product(*this);
  Resource::Ptr c = Resource::Ptr(g);
  g->tracker_.DontTrack();
  return c;''','''  Product::Ptr g(new Product(*this));
  g->tracker_.DontTrack();
  return g;'''),
)
v('comp1',
 (C,'''  if (!compmath::ValidNucs(v))
    throw ValueError("invalid nuclide in CompMap");

  if (!compmath::AllPositive(v))
    throw ValueError("negative quantity in CompMap");

  Composition::Ptr c(new Composition());
  c->atom_ = v;''','''  Validate(v);
  Composition::Ptr c(new Composition());
  c->atom_ = v;'''),
 (C,'''Composition::Ptr Composition::CreateFromAtom(''','''static void Validate(const CompMap& v) {
  if (!compmath::ValidNucs(v))
    throw ValueError("invalid nuclide in CompMap");

  if (!compmath::AllPositive(v))
    throw ValueError("negative quantity in CompMap");
}

Composition::Ptr Composition::CreateFromAtom('''),
 (C,'''  if (atom_.size() == 0) {
    CompMap::iterator it;
    for (it = mass_.begin(); it != mass_.end(); ++it) {
      Nuc nuc = it->first;
      atom_[nuc] = it->second / pyne::atomic_mass(nuc);
    }
  }
  return atom_;''','''  if (!atom_.empty()) {
    return atom_;
  }
  for (const auto& entry : mass_) {
    atom_[entry.first] = entry.second / pyne::atomic_mass(entry.first);
  }
  return atom_;'''),
 (C,'''  if (decay_line_->count(tot_decay) == 1) {
    // decay_line_ has cached, pre-computed result of this decay
    return (*decay_line_)[tot_decay];
  }
''','''  Chain::iterator cached = decay_line_->find(tot_decay);
  if (cached != decay_line_->end()) {
    return cached->second;
  }
'''),
 (C,'''  (*decay_line_)[tot_decay] = decayed;
  return decayed;''','''  decay_line_->insert(std::make_pair(tot_decay, decayed));
  return decayed;'''),
 (C,'''  CompMap::const_iterator it;
  CompMap cm = mass();  // force lazy evaluation now
  compmath::Normalize(&cm, 1);
  for (it = cm.begin(); it != cm.end(); ++it) {
    ctx->NewDatum("Compositions")
        ->AddVal("QualId", id())
        ->AddVal("NucId", it->first)
        ->AddVal("MassFrac", it->second)
        ->Record();
  }''','''  CompMap cm(mass());  // force lazy evaluation now
  compmath::Normalize(&cm, 1);
  const int qual_id = id();
  for (const auto& [nuc, frac] : cm) {
    Datum* d = ctx->NewDatum("Compositions");
    d->AddVal("QualId", qual_id);
    d->AddVal("NucId", nuc);
    d->AddVal("MassFrac", frac);
    d->Record();
  }'''),
 (C,'''Composition::Composition() : prev_decay_(0), recorded_(false) {
  id_ = next_id_;
  next_id_++;
  decay_line_''','''Composition::Composition() : prev_decay_(0), recorded_(false), id_(next_id_++) {
  decay_line_'''),
 (C,'''  CompMap::const_iterator it;
  int i = -1;
  for (it = atom_.begin(); it != atom_.end(); ++it) {
    i = pyne_cram_transmute_nucid_to_i(it->first);
    if (i < 0) {
      continue;
    }
    n0[i] = it->second;
  }
''','''  int i = -1;
  for (CompMap::const_iterator it = atom_.begin(); it != atom_.end(); ++it) {
    int idx = pyne_cram_transmute_nucid_to_i(it->first);
    if (idx >= 0) {
      n0[idx] = it->second;
    }
  }
'''),
)
v('cm1',
 (CM,'''  CompMap out(v1);
  for (CompMap::const_iterator it = v2.begin(); it != v2.end(); ++it) {
    int nuc = it->first;
    out[nuc] += it->second;
  }
  return out;''','''  CompMap out = v1;
  for (const auto& kv : v2) {
    out[kv.first] = out[kv.first] + kv.second;
  }
  return out;'''),
 (CM,'''  CompMap::iterator it = v->begin();
  while (it != v->end()) {
    if (std::abs(it->second) <= threshold) {
      v->erase(it++);
    } else {
      it++;
    }
  }''','''  for (CompMap::iterator it = v->begin(); it != v->end();) {
    if (std::abs(it->second) <= threshold) {
      it = v->erase(it);
    } else {
      ++it;
    }
  }'''),
 (CM,'''  double sum = Sum(*v);
  if (sum != val && sum != 0) {
    double mult = val / sum;
    for (CompMap::iterator it = v->begin(); it != v->end(); ++it) {
      it->second *= mult;
    }
  }''','''  const double sum = Sum(*v);
  if (sum == val || sum == 0) {
    return;
  }
  const double mult = val / sum;
  for (auto& kv : *v) {
    kv.second *= mult;
  }'''),
 (CM,'''  CompMap::const_iterator it;
  for (it = v.begin(); it != v.end(); ++it) {
    if (it->second < 0) {
      return false;
    }
  }
  return true;''','''  return std::none_of(v.begin(), v.end(), [](const CompMap::value_type& kv) { return kv.second < 0; });'''),
 (CM,'''#include <cmath>''','''#include <algorithm>
#include <cmath>'''),
 (CM,'''  for (it = v.begin(); it != v.end(); ++it) {
    if (!pyne::nucname::isnuclide(it->first)) {
      return false;
    }
  }
  return true;''','''  bool valid = true;
  for (it = v.begin(); it != v.end(); ++it) {
    if (!pyne::nucname::isnuclide(it->first)) {
      valid = false;
      break;
    }
  }
  return valid;'''),
)
v('rec1',
 (R,'''  for (int i = 0; i < data_.size(); ++i) {
    delete data_[i];
  }
}''','''  DeleteData();
}

void Recorder::DeleteData() {
  for (Datum* d : data_) {
    delete d;
  }
  data_.clear();
}'''),
 (R,'''  Flush();
  for (int i = 0; i < data_.size(); ++i) {
    delete data_[i];
  }
  data_.clear();
  data_.reserve(count);''','''  Flush();
  DeleteData();
  data_.reserve(count);'''),
 (RH,'''  void NotifyBackends();''','''  void NotifyBackends();
  void DeleteData();'''),
 (R,'''  if (inject_sim_id_) {
    d->vals_.resize(1);
    d->shapes_.resize(1);
    d->fields_.resize(1);
  } else {
    d->vals_.resize(0);
    d->shapes_.resize(0);
    d->fields_.resize(0);
  }

  index_++;
  return d;''','''  const size_t keep = inject_sim_id_ ? 1 : 0;
  d->vals_.resize(keep);
  d->shapes_.resize(keep);
  d->fields_.resize(keep);
  ++index_;
  return d;'''),
 (R,'''  if (index_ == 0)
    return;
  DatumList tmp = data_;
  tmp.resize(index_);
  index_ = 0;''','''  if (index_ == 0) return;
  DatumList tmp(data_.begin(), data_.begin() + index_);
  index_ = 0;'''),
 (R,'''  for (it = backs_.begin(); it != backs_.end(); it++) {
    (*it)->Notify(data_);
  }''','''  for (RecBackend* b : backs_) {
    b->Notify(data_);
  }'''),
)
