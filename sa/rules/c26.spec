fn cyclus::toolkit::TotalInvTracker::TotalInvTracker | 
  set this.max_inv_size_(std::numeric_limits<double>::max()) IF T
  set this.qty_(0) IF T
  set this.bufs_(vector{}) IF T
fn cyclus::toolkit::TotalInvTracker::TotalInvTracker | std::vector<cyclus::toolkit::ResBuf<cyclus::Material> *>; double
  default 1 = std::numeric_limits<double>::max()
  throw cyclus::ValueError() IF !$1 > 0 | empty($0)
  set this.bufs_($0) IF T
  set this.max_inv_size_($1) IF T
fn cyclus::toolkit::TotalInvTracker::~TotalInvTracker
fn cyclus::toolkit::TotalInvTracker::Init
  default 1 = std::numeric_limits<double>::max()
  throw cyclus::ValueError() IF !$1 > 0 | empty($0)
  set this.bufs_($0) IF !empty($0)
  set this.max_inv_size_($1) IF $1 > 0 & !empty($0)
fn cyclus::toolkit::TotalInvTracker::quantity
  throw cyclus::ValueError() IF empty(this.bufs_)
  set this.qty_(fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) IF !empty(this.bufs_)
  ret return(fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) IF !empty(this.bufs_)
fn cyclus::toolkit::TotalInvTracker::capacity
  throw cyclus::ValueError() IF empty(this.bufs_)
  ret return(min(fold(this.bufs_; 0; (elem(this.bufs_).cap_+~)),this.max_inv_size_)) IF !empty(this.bufs_)
fn cyclus::toolkit::TotalInvTracker::total_capacity_bufs
  throw cyclus::ValueError() IF empty(this.bufs_)
  ret return(fold(this.bufs_; 0; (elem(this.bufs_).cap_+~))) IF !empty(this.bufs_)
fn cyclus::toolkit::TotalInvTracker::tracker_capacity
  ret return(this.max_inv_size_) IF T
fn cyclus::toolkit::TotalInvTracker::space
  throw cyclus::ValueError() IF empty(this.bufs_)
  set this.qty_(fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) IF !empty(this.bufs_)
  ret return(max((-fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))+min(fold(this.bufs_; 0; (elem(this.bufs_).cap_+~)),this.max_inv_size_)),0)) IF !empty(this.bufs_)
fn cyclus::toolkit::TotalInvTracker::constrained_buf_space
  throw cyclus::ValueError() IF empty(this.bufs_)
  set this.qty_(fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) IF !empty(this.bufs_)
  ret return(min(max(($0.cap_-$0.qty_),0),max((-fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))+min(fold(this.bufs_; 0; (elem(this.bufs_).cap_+~)),this.max_inv_size_)),0))) IF !empty(this.bufs_)
fn cyclus::toolkit::TotalInvTracker::empty
  throw cyclus::ValueError() IF empty(this.bufs_)
  set this.qty_(fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) IF !empty(this.bufs_)
  ret return(true) IF !empty(this.bufs_) & fold(this.bufs_; 0; (elem(this.bufs_).qty_+~)) == 0
fn cyclus::toolkit::TotalInvTracker::num_bufs
  throw cyclus::ValueError() IF empty(this.bufs_)
  ret return(size(this.bufs_)) IF !empty(this.bufs_)
fn cyclus::toolkit::TotalInvTracker::set_capacity
  throw cyclus::ValueError() IF !($0+cyclus::cy_eps_rsrc-fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) >= 0 | empty(this.bufs_)
  set this.qty_(fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) IF !empty(this.bufs_)
  set this.max_inv_size_($0) IF ($0+cyclus::cy_eps_rsrc-fold(this.bufs_; 0; (elem(this.bufs_).qty_+~))) >= 0 & !empty(this.bufs_)
fn cyclus::toolkit::TotalInvTracker::buf_in_tracker
  throw cyclus::ValueError() IF empty(this.bufs_)
  ret return(true) IF !empty(this.bufs_) & has(this.bufs_,$0)
