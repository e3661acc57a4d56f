fn cyclus::ProgTranslator::ProgTranslator | cyclus::ExchangeGraph *; OsiSolverInterface *
  set this.g_($0) IF T
  set this.iface_($1) IF T
  set this.excl_(false) IF T
  set this.ctx_(ProgTranslatorContext{}) IF T
  set this.pseudo_cost_(std::numeric_limits<double>::max()) IF T
  set this.arc_offset_(size($0.arcs_)) IF T
  call ProgTranslatorContext{}.obj_coeffs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_ubs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_lbs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  set this.ctx_.m(CoinPackedMatrix{false,0,0}) IF T
fn cyclus::ProgTranslator::ProgTranslator | cyclus::ExchangeGraph *; OsiSolverInterface *; bool
  set this.g_($0) IF T
  set this.iface_($1) IF T
  set this.excl_($2) IF T
  set this.ctx_(ProgTranslatorContext{}) IF T
  set this.pseudo_cost_(std::numeric_limits<double>::max()) IF T
  set this.arc_offset_(size($0.arcs_)) IF T
  call ProgTranslatorContext{}.obj_coeffs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_ubs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_lbs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  set this.ctx_.m(CoinPackedMatrix{false,0,0}) IF T
fn cyclus::ProgTranslator::ProgTranslator | cyclus::ExchangeGraph *; OsiSolverInterface *; double
  set this.g_($0) IF T
  set this.iface_($1) IF T
  set this.excl_(false) IF T
  set this.ctx_(ProgTranslatorContext{}) IF T
  set this.pseudo_cost_($2) IF T
  set this.arc_offset_(size($0.arcs_)) IF T
  call ProgTranslatorContext{}.obj_coeffs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_ubs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_lbs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  set this.ctx_.m(CoinPackedMatrix{false,0,0}) IF T
fn cyclus::ProgTranslator::ProgTranslator | cyclus::ExchangeGraph *; OsiSolverInterface *; bool; double
  set this.g_($0) IF T
  set this.iface_($1) IF T
  set this.excl_($2) IF T
  set this.ctx_(ProgTranslatorContext{}) IF T
  set this.pseudo_cost_($3) IF T
  set this.arc_offset_(size($0.arcs_)) IF T
  call ProgTranslatorContext{}.obj_coeffs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_ubs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  call ProgTranslatorContext{}.col_lbs.std::vector::resize((size($0.arcs_)+size($0.request_groups_))) IF T
  set this.ctx_.m(CoinPackedMatrix{false,0,0}) IF T
fn cyclus::ProgTranslator::Init
  set this.arc_offset_(size(this.g_.arcs_)) IF T
  call this.ctx_.obj_coeffs.std::vector::resize((size(this.g_.arcs_)+size(this.g_.request_groups_))) IF T
  call this.ctx_.col_ubs.std::vector::resize((size(this.g_.arcs_)+size(this.g_.request_groups_))) IF T
  call this.ctx_.col_lbs.std::vector::resize((size(this.g_.arcs_)+size(this.g_.request_groups_))) IF T
  set this.ctx_.m(CoinPackedMatrix{false,0,0}) IF T
fn cyclus::ProgTranslator::CheckPref
  throw cyclus::ValueError() IF !$0 > 0
fn cyclus::ProgTranslator::Translate
  * [for this.g_.request_groups_] call elem(this.g_.request_groups_).cyclus::ExchangeNodeGroup::HasArcs() IF T
  call this.ctx_.m.CoinPackedMatrix::setDimensions(0, (fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))+size(this.g_.arcs_))) IF T
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).capacities_] add @vector<CoinPackedVector>.add(CoinPackedVector{}) IF T
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).nodes_] [for elem(elem(this.g_.supply_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first], (elem(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)*elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first.excl_val_)) IF elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first.exclusive_ & this.excl_
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).nodes_] [for elem(elem(this.g_.supply_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first], elem(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)) IF !elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first.exclusive_ | !this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_lbs.add(0) IF T
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_ubs.add(elem(this.g_.supply_groups_).capacities_[idx(@vector<CoinPackedVector>)]) IF T
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).capacities_; @vector<CoinPackedVector>; ~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(@vector<CoinPackedVector>)) IF T
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).excl_node_groups_] [for elem(elem(this.g_.supply_groups_).excl_node_groups_)] [for this.g_.node_arc_map_[elem(elem(elem(this.g_.supply_groups_).excl_node_groups_))]] call @CoinPackedVector.CoinPackedVector::insert(this.g_.arc_ids_[elem(this.g_.node_arc_map_[elem(elem(elem(this.g_.supply_groups_).excl_node_groups_))])], 1) IF this.excl_
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).excl_node_groups_] add @vector<CoinPackedVector>.add(@CoinPackedVector) IF @CoinPackedVector.getNumElements() >= 1 & this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_lbs.add(0) IF this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_ubs.add(1) IF this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'))) IF this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).capacities_] add @vector<CoinPackedVector>.add(CoinPackedVector{}) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], (elem(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)*elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.excl_val_)) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], elem(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)) IF !elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(this.g_.request_groups_).HasArcs() | elem(this.g_.request_groups_).HasArcs() & !this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] throw cyclus::ValueError() IF !elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] call cyclus::ExchangeSolver::Cost(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first, this.excl_) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.obj_coeffs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], cyclus::ExchangeSolver::Cost(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first,this.excl_)) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.col_lbs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], 0) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.col_ubs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], 1) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.col_ubs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], min(elem(elem(this.g_.request_groups_).nodes_).qty,this.iface_.getInfinity())) IF !elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs() | elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs() & !this.excl_
  [for this.g_.request_groups_] set this.arc_offset_((~this.arc_offset_+1)) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] call elem(@vector<CoinPackedVector>).CoinPackedVector::insert(~this.arc_offset_, 1) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_lbs.add(min(1000000000000000.0,elem(this.g_.request_groups_).capacities_[idx(@vector<CoinPackedVector>)])) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_ubs.add(this.iface_.getInfinity()) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(@vector<CoinPackedVector>)) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).excl_node_groups_] [for elem(elem(this.g_.request_groups_).excl_node_groups_)] [for this.g_.node_arc_map_[elem(elem(elem(this.g_.request_groups_).excl_node_groups_))]] call @CoinPackedVector.CoinPackedVector::insert(this.g_.arc_ids_[elem(this.g_.node_arc_map_[elem(elem(elem(this.g_.request_groups_).excl_node_groups_))])], 1) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).excl_node_groups_] add @vector<CoinPackedVector>.add(@CoinPackedVector) IF @CoinPackedVector.getNumElements() >= 1 & elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_lbs.add(0) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_ubs.add(1) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'))) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_))] put this.ctx_.obj_coeffs.put((idx(range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_)))+size(this.g_.arcs_)), this.pseudo_cost_) IF T
  [for range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_))] put this.ctx_.col_lbs.put((idx(range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_)))+size(this.g_.arcs_)), 0) IF T
  [for range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_))] put this.ctx_.col_ubs.put((idx(range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_)))+size(this.g_.arcs_)), this.iface_.getInfinity()) IF T
fn cyclus::ProgTranslator::Populate
  call this.iface_.OsiSolverInterface::setObjSense(1) IF T
  call this.iface_.OsiSolverInterface::loadProblem(this.ctx_.m, this.ctx_.col_lbs[0], this.ctx_.col_ubs[0], this.ctx_.obj_coeffs[0], this.ctx_.row_lbs[0], this.ctx_.row_ubs[0]) IF T
  [for this.g_.arcs_] call this.iface_.OsiSolverInterface::setInteger(this.g_.arc_ids_[elem(this.g_.arcs_)]) IF elem(this.g_.arcs_).exclusive_ & this.excl_
fn cyclus::ProgTranslator::ToProg
  * [for this.g_.request_groups_] call elem(this.g_.request_groups_).cyclus::ExchangeNodeGroup::HasArcs() IF T
  call this.ctx_.m.CoinPackedMatrix::setDimensions(0, (fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))+size(this.g_.arcs_))) IF T
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).capacities_] add @vector<CoinPackedVector>.add(CoinPackedVector{}) IF T
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).nodes_] [for elem(elem(this.g_.supply_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first], (elem(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)*elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first.excl_val_)) IF elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first.exclusive_ & this.excl_
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).nodes_] [for elem(elem(this.g_.supply_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first], elem(elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).second)) IF !elem(elem(elem(this.g_.supply_groups_).nodes_).unit_capacities).first.exclusive_ | !this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_lbs.add(0) IF T
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_ubs.add(elem(this.g_.supply_groups_).capacities_[idx(@vector<CoinPackedVector>)]) IF T
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).capacities_; @vector<CoinPackedVector>; ~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(@vector<CoinPackedVector>)) IF T
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).excl_node_groups_] [for elem(elem(this.g_.supply_groups_).excl_node_groups_)] [for this.g_.node_arc_map_[elem(elem(elem(this.g_.supply_groups_).excl_node_groups_))]] call @CoinPackedVector.CoinPackedVector::insert(this.g_.arc_ids_[elem(this.g_.node_arc_map_[elem(elem(elem(this.g_.supply_groups_).excl_node_groups_))])], 1) IF this.excl_
  [for this.g_.supply_groups_] [for elem(this.g_.supply_groups_).excl_node_groups_] add @vector<CoinPackedVector>.add(@CoinPackedVector) IF @CoinPackedVector.getNumElements() >= 1 & this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_lbs.add(0) IF this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_ubs.add(1) IF this.excl_
  [for this.g_.supply_groups_] [for fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'))) IF this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).capacities_] add @vector<CoinPackedVector>.add(CoinPackedVector{}) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], (elem(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)*elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.excl_val_)) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] [for elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], elem(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).second)) IF !elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(this.g_.request_groups_).HasArcs() | elem(this.g_.request_groups_).HasArcs() & !this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] throw cyclus::ValueError() IF !elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] call cyclus::ExchangeSolver::Cost(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first, this.excl_) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.obj_coeffs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], cyclus::ExchangeSolver::Cost(elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first,this.excl_)) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.col_lbs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], 0) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.col_ubs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], 1) IF elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).nodes_] [for elem(elem(this.g_.request_groups_).nodes_).unit_capacities] put this.ctx_.col_ubs.put(this.g_.arc_ids_[elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first], min(elem(elem(this.g_.request_groups_).nodes_).qty,this.iface_.getInfinity())) IF !elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.exclusive_ & elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs() | elem(elem(elem(this.g_.request_groups_).nodes_).unit_capacities).first.pref_ > 0 & elem(this.g_.request_groups_).HasArcs() & !this.excl_
  [for this.g_.request_groups_] set this.arc_offset_((~this.arc_offset_+1)) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] call elem(@vector<CoinPackedVector>).CoinPackedVector::insert(~this.arc_offset_, 1) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_lbs.add(min(1000000000000000.0,elem(this.g_.request_groups_).capacities_[idx(@vector<CoinPackedVector>)])) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_ubs.add(this.iface_.getInfinity()) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).capacities_; @vector<CoinPackedVector>; ~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(@vector<CoinPackedVector>)) IF elem(this.g_.request_groups_).HasArcs()
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).excl_node_groups_] [for elem(elem(this.g_.request_groups_).excl_node_groups_)] [for this.g_.node_arc_map_[elem(elem(elem(this.g_.request_groups_).excl_node_groups_))]] call @CoinPackedVector.CoinPackedVector::insert(this.g_.arc_ids_[elem(this.g_.node_arc_map_[elem(elem(elem(this.g_.request_groups_).excl_node_groups_))])], 1) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for elem(this.g_.request_groups_).excl_node_groups_] add @vector<CoinPackedVector>.add(@CoinPackedVector) IF @CoinPackedVector.getNumElements() >= 1 & elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_lbs.add(0) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_ubs.add(1) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for this.g_.request_groups_] [for fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'))) IF elem(this.g_.request_groups_).HasArcs() & this.excl_
  [for range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_))] put this.ctx_.obj_coeffs.put((idx(range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_)))+size(this.g_.arcs_)), this.pseudo_cost_) IF T
  [for range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_))] put this.ctx_.col_lbs.put((idx(range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_)))+size(this.g_.arcs_)), 0) IF T
  [for range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_))] put this.ctx_.col_ubs.put((idx(range((fold(this.g_.request_groups_; 0; !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs():(~+1))-size(this.g_.arcs_)+this.arc_offset_)))+size(this.g_.arcs_)), this.iface_.getInfinity()) IF T
  call this.iface_.OsiSolverInterface::setObjSense(1) IF T
  call this.iface_.OsiSolverInterface::loadProblem(this.ctx_.m, this.ctx_.col_lbs[0], this.ctx_.col_ubs[0], this.ctx_.obj_coeffs[0], fold(this.g_.request_groups_; fold(this.g_.supply_groups_; this.ctx_.row_lbs; !this.excl_:@vector<CoinPackedVector>; ~; ~') ; this.excl_:fold(fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'); @vector<CoinPackedVector>; ~; ~'); ~')); !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs() & !this.excl_:@vector<CoinPackedVector>; ~; ~') ; elem(this.g_.request_groups_).HasArcs() & this.excl_:fold(fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'); @vector<CoinPackedVector>; ~; ~'); ~'))[0], fold(this.g_.request_groups_; fold(this.g_.supply_groups_; this.ctx_.row_ubs; !this.excl_:@vector<CoinPackedVector>; ~; ~') ; this.excl_:fold(fold(elem(this.g_.supply_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'); @vector<CoinPackedVector>; ~; ~'); ~')); !elem(this.g_.request_groups_).HasArcs():~ ; elem(this.g_.request_groups_).HasArcs() & !this.excl_:@vector<CoinPackedVector>; ~; ~') ; elem(this.g_.request_groups_).HasArcs() & this.excl_:fold(fold(elem(this.g_.request_groups_).excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'); @vector<CoinPackedVector>; ~; ~'); ~'))[0]) IF T
  [for this.g_.arcs_] call this.iface_.OsiSolverInterface::setInteger(this.g_.arc_ids_[elem(this.g_.arcs_)]) IF elem(this.g_.arcs_).exclusive_ & this.excl_
fn cyclus::ProgTranslator::XlateGrp_
  call $0.cyclus::ExchangeNodeGroup::HasArcs() IF $1
  [for $0.capacities_] add @vector<CoinPackedVector>.add(CoinPackedVector{}) IF !$1 | $0.HasArcs()
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] [for elem(elem($0.nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem($0.nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem($0.nodes_).unit_capacities).first], (elem(elem($0.nodes_).unit_capacities).first.excl_val_*elem(elem(elem($0.nodes_).unit_capacities).second))) IF !$1 & elem(elem($0.nodes_).unit_capacities).first.exclusive_ & this.excl_ | $0.HasArcs() & elem(elem($0.nodes_).unit_capacities).first.exclusive_ & this.excl_
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] [for elem(elem($0.nodes_).unit_capacities).second] call @vector<CoinPackedVector>[idx(elem(elem($0.nodes_).unit_capacities).second)].CoinPackedVector::insert(this.g_.arc_ids_[elem(elem($0.nodes_).unit_capacities).first], elem(elem(elem($0.nodes_).unit_capacities).second)) IF !$1 & !elem(elem($0.nodes_).unit_capacities).first.exclusive_ | !$1 & !this.excl_ | $0.HasArcs() & !elem(elem($0.nodes_).unit_capacities).first.exclusive_ | $0.HasArcs() & !this.excl_
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] throw cyclus::ValueError() IF $0.HasArcs() & $1 & !elem(elem($0.nodes_).unit_capacities).first.pref_ > 0
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] call cyclus::ExchangeSolver::Cost(elem(elem($0.nodes_).unit_capacities).first, this.excl_) IF $0.HasArcs() & $1 & elem(elem($0.nodes_).unit_capacities).first.pref_ > 0
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] put this.ctx_.obj_coeffs.put(this.g_.arc_ids_[elem(elem($0.nodes_).unit_capacities).first], cyclus::ExchangeSolver::Cost(elem(elem($0.nodes_).unit_capacities).first,this.excl_)) IF $0.HasArcs() & $1 & elem(elem($0.nodes_).unit_capacities).first.pref_ > 0
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] put this.ctx_.col_lbs.put(this.g_.arc_ids_[elem(elem($0.nodes_).unit_capacities).first], 0) IF $0.HasArcs() & $1 & elem(elem($0.nodes_).unit_capacities).first.pref_ > 0
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] put this.ctx_.col_ubs.put(this.g_.arc_ids_[elem(elem($0.nodes_).unit_capacities).first], 1) IF $0.HasArcs() & $1 & elem(elem($0.nodes_).unit_capacities).first.exclusive_ & elem(elem($0.nodes_).unit_capacities).first.pref_ > 0 & this.excl_
  [for $0.nodes_] [for elem($0.nodes_).unit_capacities] put this.ctx_.col_ubs.put(this.g_.arc_ids_[elem(elem($0.nodes_).unit_capacities).first], min(elem($0.nodes_).qty,this.iface_.getInfinity())) IF $0.HasArcs() & $1 & !elem(elem($0.nodes_).unit_capacities).first.exclusive_ & elem(elem($0.nodes_).unit_capacities).first.pref_ > 0 | $0.HasArcs() & $1 & elem(elem($0.nodes_).unit_capacities).first.pref_ > 0 & !this.excl_
  set this.arc_offset_((this.arc_offset_+1)) IF $0.HasArcs() & $1
  [for fold($0.capacities_; @vector<CoinPackedVector>; ~')] call elem(@vector<CoinPackedVector>).CoinPackedVector::insert(this.arc_offset_, 1) IF $0.HasArcs() & $1
  [for fold($0.capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_lbs.add(min($0.capacities_[idx(@vector<CoinPackedVector>)],1000000000000000.0)) IF $0.HasArcs() & $1
  [for fold($0.capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_lbs.add(0) IF !$1
  [for fold($0.capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_ubs.add(this.iface_.getInfinity()) IF $0.HasArcs() & $1
  [for fold($0.capacities_; @vector<CoinPackedVector>; ~')] add this.ctx_.row_ubs.add($0.capacities_[idx(@vector<CoinPackedVector>)]) IF !$1
  [for fold($0.capacities_; @vector<CoinPackedVector>; ~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(@vector<CoinPackedVector>)) IF !$1 | $0.HasArcs()
  [for $0.excl_node_groups_] [for elem($0.excl_node_groups_)] [for this.g_.node_arc_map_[elem(elem($0.excl_node_groups_))]] call @CoinPackedVector.CoinPackedVector::insert(this.g_.arc_ids_[elem(this.g_.node_arc_map_[elem(elem($0.excl_node_groups_))])], 1) IF !$1 & this.excl_ | $0.HasArcs() & this.excl_
  [for $0.excl_node_groups_] add @vector<CoinPackedVector>.add(@CoinPackedVector) IF !$1 & @CoinPackedVector.getNumElements() >= 1 & this.excl_ | $0.HasArcs() & @CoinPackedVector.getNumElements() >= 1 & this.excl_
  [for fold($0.excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_lbs.add(0) IF !$1 & this.excl_ | $0.HasArcs() & this.excl_
  [for fold($0.excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] add this.ctx_.row_ubs.add(1) IF !$1 & this.excl_ | $0.HasArcs() & this.excl_
  [for fold($0.excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~')] call this.ctx_.m.CoinPackedMatrix::appendRow(elem(fold($0.excl_node_groups_; @vector<CoinPackedVector>; !@CoinPackedVector.getNumElements() >= 1:~ ; @CoinPackedVector.getNumElements() >= 1:~'))) IF !$1 & this.excl_ | $0.HasArcs() & this.excl_
fn cyclus::ProgTranslator::FromProg
  [for this.g_.arcs_] call this.g_.cyclus::ExchangeGraph::AddMatch(this.g_.arc_by_id_[idx(this.g_.arcs_)], (this.g_.arc_by_id_[idx(this.g_.arcs_)].excl_val_*this.iface_.getColSolution()[idx(this.g_.arcs_)])) IF ((this.g_.arc_by_id_[idx(this.g_.arcs_)].excl_val_*this.iface_.getColSolution()[idx(this.g_.arcs_)])-cyclus::cy_eps) > 0 & this.excl_ & this.g_.arc_by_id_[idx(this.g_.arcs_)].exclusive_
  [for this.g_.arcs_] call this.g_.cyclus::ExchangeGraph::AddMatch(this.g_.arc_by_id_[idx(this.g_.arcs_)], this.iface_.getColSolution()[idx(this.g_.arcs_)]) IF !(cyclus::cy_eps-this.iface_.getColSolution()[idx(this.g_.arcs_)]) >= 0 & !this.excl_ | !(cyclus::cy_eps-this.iface_.getColSolution()[idx(this.g_.arcs_)]) >= 0 & !this.g_.arc_by_id_[idx(this.g_.arcs_)].exclusive_
fn cyclus::ProgTranslator::ctx
  ret return(this.ctx_) IF T
fn cyclus::ProgSolver::ProgSolver | std::basic_string<char>
  set this.exclusive_orders_(false) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
  set this.solver_t_($0) IF T
  set this.tmax_(cyclus::ProgSolver::kDefaultTimeout) IF T
  set this.mps_(false) IF T
fn cyclus::ProgSolver::ProgSolver | std::basic_string<char>; bool
  set this.exclusive_orders_($1) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
  set this.solver_t_($0) IF T
  set this.tmax_(cyclus::ProgSolver::kDefaultTimeout) IF T
  set this.mps_(false) IF T
fn cyclus::ProgSolver::ProgSolver | std::basic_string<char>; double
  set this.exclusive_orders_(false) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
  set this.solver_t_($0) IF T
  set this.tmax_($1) IF T
  set this.mps_(false) IF T
fn cyclus::ProgSolver::ProgSolver | std::basic_string<char>; double; bool; bool; bool
  set this.exclusive_orders_($2) IF T
  set this.sim_ctx_(NULL) IF T
  set this.solver_t_($0) IF T
  set this.tmax_($1) IF T
  set this.verbose_($3) IF T
  set this.mps_($4) IF T
fn cyclus::ProgSolver::~ProgSolver
fn cyclus::ProgSolver::WriteMPS
  call this.iface_.OsiSolverInterface::writeMps("exchng_" ++ this.sim_ctx_.ti_.time_) IF T
fn cyclus::ProgSolver::SolveGraph
  call SolverFactory{this.solver_t_,this.tmax_}.cyclus::SolverFactory::get() IF T
  set this.iface_(SolverFactory{this.solver_t_,this.tmax_}.get()) IF T
  set GreedySolver{this.exclusive_orders_}.graph_(this.graph_) IF this.graph_
  call GreedySolver{this.exclusive_orders_}.cyclus::ExchangeSolver::SolveGraph() IF T
  call this.graph_.cyclus::ExchangeGraph::ClearMatches() IF T
  call ProgTranslator{this.graph_,SolverFactory{this.solver_t_,this.tmax_}.get(),this.exclusive_orders_,(1.1*fold(this.graph_.arcs_; 0; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & !this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(1/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).exclusive_ | elem(this.graph_.arcs_).excl_val_ >= 1 & !this.exclusive_orders_:max((1/elem(this.graph_.arcs_).pref_),~) ; elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max((elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_),~)))}.cyclus::ProgTranslator::ToProg() IF T
  call SolverFactory{this.solver_t_,this.tmax_}.get().OsiSolverInterface::writeMps("exchng_" ++ this.sim_ctx_.ti_.time_) IF this.mps_
  call SolverFactory{this.solver_t_,this.tmax_}.get().OsiSolverInterface::passInMessageHandler(@CoinMessageHandler) IF T
  call cyclus::SolveProg(SolverFactory{this.solver_t_,this.tmax_}.get(), GreedySolver{this.exclusive_orders_}.SolveGraph(), this.verbose_) IF T
  call ProgTranslator{this.graph_,SolverFactory{this.solver_t_,this.tmax_}.get(),this.exclusive_orders_,(1.1*fold(this.graph_.arcs_; 0; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & !this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(1/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).exclusive_ | elem(this.graph_.arcs_).excl_val_ >= 1 & !this.exclusive_orders_:max((1/elem(this.graph_.arcs_).pref_),~) ; elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max((elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_),~)))}.cyclus::ProgTranslator::FromProg() IF T
  * delete delete(SolverFactory{this.solver_t_,this.tmax_}.get()) IF SolverFactory{this.solver_t_,this.tmax_}.get()
  throw rethrow() IF caught(...)
  ret return(SolverFactory{this.solver_t_,this.tmax_}.get().getObjValue()) IF T
  seq 2<3
fn cyclus::SolverFactory::SolverFactory | 
  set this.t_("cbc") IF T
  set this.tmax_(10800) IF T
fn cyclus::SolverFactory::SolverFactory | std::basic_string<char>
  set this.t_($0) IF T
  set this.tmax_(10800) IF T
fn cyclus::SolverFactory::SolverFactory | std::basic_string<char>; double
  set this.t_($0) IF T
  set this.tmax_($1) IF T
fn cyclus::SolverFactory::get
  call new OsiClpSolverInterface{}.getModelPtr().ClpModel::setMaximumSeconds(this.tmax_) IF this.t_ == "cbc" | this.t_ == "clp"
  ret return(new OsiClpSolverInterface{}) IF this.t_ == "cbc" | this.t_ == "clp"
  throw cyclus::ValueError() IF !this.t_ == "cbc" & !this.t_ == "clp"
fn cyclus::SolverFactory::solver_t | std::basic_string<char>
  set this.t_($0) IF T
fn cyclus::SolverFactory::solver_t | const
  ret return(this.t_) IF T
fn cyclus::SolverFactory::solver_t | 
  ret return(this.t_) IF T
fn cyclus::SolveProg | OsiSolverInterface *; double; bool
  call $0.getMatrixByRow().CoinPackedMatrix::dumpMatrix() IF $2
  call $0.CbcModel::passInEventHandler(ObjValueHandler{$1}) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::initialSolve() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::branchAndBound() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::bestSolution() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::setColSolution($0.bestSolution()) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::initialSolve() IF !ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
fn cyclus::SolveProg | OsiSolverInterface *
  call $0.CbcModel::passInEventHandler(ObjValueHandler{$0.getInfinity()}) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::initialSolve() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::branchAndBound() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::bestSolution() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::setColSolution($0.bestSolution()) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::initialSolve() IF !ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
fn cyclus::SolveProg | OsiSolverInterface *; bool
  call $0.getMatrixByRow().CoinPackedMatrix::dumpMatrix() IF $1
  call $0.CbcModel::passInEventHandler(ObjValueHandler{$0.getInfinity()}) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::initialSolve() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::branchAndBound() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::bestSolution() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::setColSolution($0.bestSolution()) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::initialSolve() IF !ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
fn cyclus::SolveProg | OsiSolverInterface *; double
  call $0.CbcModel::passInEventHandler(ObjValueHandler{$1}) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::initialSolve() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::branchAndBound() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.CbcModel::bestSolution() IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::setColSolution($0.bestSolution()) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
  call $0.OsiSolverInterface::initialSolve() IF !ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
fn cyclus::HasInt
  ret return(true) IF ANY(range($0.getNumCols()): $0.isInteger(idx(range($0.getNumCols()))))
fn cyclus::ReportProg
  call $0.getMatrixByRow().CoinPackedMatrix::dumpMatrix() IF T
fn cyclus::ObjValueHandler::ObjValueHandler | double; double; bool
  set this.obj_($0) IF T
  set this.time_($1) IF T
  set this.found_($2) IF T
fn cyclus::ObjValueHandler::ObjValueHandler | double
  set this.obj_($0) IF T
  set this.time_(0) IF T
  set this.found_(false) IF T
fn cyclus::ObjValueHandler::~ObjValueHandler
fn cyclus::ObjValueHandler::ObjValueHandler | const cyclus::ObjValueHandler &
  set this.obj_($0.obj_) IF T
  set this.time_($0.time_) IF T
  set this.found_($0.found_) IF T
fn cyclus::ObjValueHandler::operator=
  set this.obj_($0.obj_) IF !$0 == this
  set this.time_($0.time_) IF !$0 == this
  set this.found_($0.found_) IF !$0 == this
  call this.CbcEventHandler::operator=($0) IF !$0 == this
  ret return(this) IF T
fn cyclus::ObjValueHandler::clone
  ret return(new this) IF T
fn cyclus::ObjValueHandler::event
  call CoinCpuTime() IF $0 == CbcEventHandler::heuristicSolution & !(this.getModel().getObjValue()-this.obj_) >= 0 & !this.found_ | $0 == CbcEventHandler::solution & !(this.getModel().getObjValue()-this.obj_) >= 0 & !this.found_
  set this.time_((CoinCpuTime()-this.getModel().getDblParam(CbcModel::CbcStartSeconds))) IF $0 == CbcEventHandler::heuristicSolution & !(this.getModel().getObjValue()-this.obj_) >= 0 & !this.found_ | $0 == CbcEventHandler::solution & !(this.getModel().getObjValue()-this.obj_) >= 0 & !this.found_
  set this.found_(true) IF $0 == CbcEventHandler::heuristicSolution & !(this.getModel().getObjValue()-this.obj_) >= 0 & !this.found_ | $0 == CbcEventHandler::solution & !(this.getModel().getObjValue()-this.obj_) >= 0 & !this.found_
  ret return(CbcEventHandler::noAction) IF T
fn cyclus::ObjValueHandler::time
  ret return(this.time_) IF T
fn cyclus::ObjValueHandler::obj
  ret return(this.obj_) IF T
fn cyclus::ObjValueHandler::found
  ret return(this.found_) IF T
init cyclus::kModifierLimit = std::pow(10,10)
