fn cyclus::Product::Create
  default 3 = cyclus::Package::unpackaged_name_
  set cyclus::Product::next_qualid_((cyclus::Product::next_qualid_+1)) IF !has(cyclus::Product::qualids_,$2)
  put cyclus::Product::qualids_.put($2, cyclus::Product::next_qualid_) IF !has(cyclus::Product::qualids_,$2)
  call $0.ctx_.rec_.NewDatum("Products").cyclus::Datum::AddVal("QualId", cyclus::Product::next_qualid_) IF !has(cyclus::Product::qualids_,$2)
  call $0.ctx_.rec_.NewDatum("Products").cyclus::Datum::AddVal("Quality", $2) IF !has(cyclus::Product::qualids_,$2)
  call $0.ctx_.rec_.NewDatum("Products").cyclus::Datum::Record() IF !has(cyclus::Product::qualids_,$2)
  call new Product{$0.ctx_,$1,$2,$3}.tracker_.cyclus::ResTracker::Create($0) IF T
  ret return(new Product{$0.ctx_,$1,$2,$3}) IF T
  seq 1<5
fn cyclus::Product::CreateUntracked
  call new Product{NULL,$0,$1}.tracker_.cyclus::ResTracker::DontTrack() IF T
  ret return(new Product{NULL,$0,$1}) IF T
fn cyclus::Product::Clone
  call new this.tracker_.cyclus::ResTracker::DontTrack() IF T
  ret return(new this) IF T
fn cyclus::Product::Absorb
  throw cyclus::ValueError() IF !$0.quality_ == this.quality_
  set this.quantity_(($0.quantity_+this.quantity_)) IF $0.quality_ == this.quality_
  set $0.quantity_(0) IF $0.quality_ == this.quality_
  call this.tracker_.cyclus::ResTracker::Absorb($0.tracker_) IF $0.quality_ == this.quality_
fn cyclus::Product::Extract
  throw cyclus::ValueError() IF ($0-this.quantity_) > 0
  set this.quantity_((-$0+this.quantity_)) IF !($0-this.quantity_) > 0
  call this.tracker_.cyclus::ResTracker::Extract(new Product{this.ctx_,$0,this.quality_,this.package_name_}.tracker_) IF !($0-this.quantity_) > 0
  ret return(new Product{this.ctx_,$0,this.quality_,this.package_name_}) IF !($0-this.quantity_) > 0
fn cyclus::Product::ExtractRes
  throw cyclus::ValueError() IF ($0-this.quantity_) > 0
  set this.quantity_((-$0+this.quantity_)) IF !($0-this.quantity_) > 0
  call this.tracker_.cyclus::ResTracker::Extract(new Product{this.ctx_,$0,this.quality_,this.package_name_}.tracker_) IF !($0-this.quantity_) > 0
  ret return(new Product{this.ctx_,$0,this.quality_,this.package_name_}) IF !($0-this.quantity_) > 0
fn cyclus::Product::Product
  default 3 = cyclus::Package::unpackaged_name_
  set cyclus::Resource::nextstate_id_((cyclus::Resource::nextstate_id_+1)) IF T
  set this.state_id_(cyclus::Resource::nextstate_id_) IF T
  set cyclus::Resource::nextobj_id_((cyclus::Resource::nextobj_id_+1)) IF T
  set this.obj_id_(cyclus::Resource::nextobj_id_) IF T
  set this.ctx_($0) IF T
  set this.quality_($2) IF T
  set this.quantity_($1) IF T
  set this.tracker_(ResTracker{$0,this}) IF T
  set this.package_name_($3) IF T
fn cyclus::Product::qual_id
  ret return(cyclus::Product::qualids_[this.quality_]) IF T
fn cyclus::Product::type
  ret return(cyclus::Product::kType) IF T
fn cyclus::Product::Record
fn cyclus::Product::units
  ret return("NONE") IF T
fn cyclus::Product::quantity
  ret return(this.quantity_) IF T
fn cyclus::Product::quality
  ret return(this.quality_) IF T
