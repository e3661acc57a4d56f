fn cyclus::Package::Create
  default 1 = 0
  default 2 = std::numeric_limits<double>::max()
  default 3 = "first"
  throw cyclus::ValueError() IF !$1 >= 0 | !$2 >= 0 | ($1-$2) > 0
  ret return(new Package{$0,$1,$2,$3}) IF $1 >= 0 & $2 >= 0 & !($1-$2) > 0
fn cyclus::Package::unpackaged
  set cyclus::Package::unpackaged_(new Package{cyclus::Package::unpackaged_name_}) IF !cyclus::Package::unpackaged_
  ret return(new Package{cyclus::Package::unpackaged_name_}) IF !cyclus::Package::unpackaged_
  ret return(cyclus::Package::unpackaged_) IF cyclus::Package::unpackaged_
fn cyclus::Package::SetDistribution
  set this.dist_(new UniformDoubleDist{this.fill_min_,this.fill_max_}) IF this.strategy_ == "uniform"
  set this.dist_(new NormalDoubleDist{(0.5*this.fill_max_+0.5*this.fill_min_),(0.166667*this.fill_max_-0.166667*this.fill_min_),this.fill_min_,this.fill_max_}) IF this.strategy_ == "normal" & !this.strategy_ == "uniform"
fn cyclus::Package::GetFillMass
  ret return(@vector<double>) IF !($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 | !($0-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-size(@vector<double>)) >= 0 & (size(@vector<double>)-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-size(@vector<double>')) >= 0 & (size(@vector<double>')-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform"
  throw cyclus::ValueError() IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_)))))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))})) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_)))))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & !(size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))})-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & this.strategy_ == "equal" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})) >= 0 & this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & !(size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(@vector<double>)) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(size(@vector<double>)-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & this.strategy_ == "equal" & !this.strategy_ == "first" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & this.strategy_ == "equal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & this.strategy_ == "first" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & !(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "first" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_)))))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))}')) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_)))))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & !(size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))}')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & this.strategy_ == "equal" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')) >= 0 & this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & !(size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !((std::numeric_limits<int>::max()/10)-size(@vector<double>')) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(size(@vector<double>')-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & (($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & !(floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "uniform"
  [for while] call this.dist_.cyclus::DoubleDistribution::sample() IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "first" & this.strategy_ == "uniform"
  [for while] add @vector<double>.add(this.dist_.sample()) IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0 & this.strategy_ == "first" & this.strategy_ == "uniform"
  add filled(while; @vector<double>).add(fold(while; $0; (-this.dist_.sample()+~))) IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "uniform"
  add vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}.add(($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_)))) IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform"
  add vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))}.add(($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_))))))) IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_)))))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform"
  add @vector<double>.add($0) IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform"
  ret return(filled(while; @vector<double>)') IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-iters(while)) >= 0 & !(fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (iters(while)-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "normal" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-size(filled(while; @vector<double>)')) >= 0 & (fold(while; $0; (-this.dist_.sample()+~))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & (size(filled(while; @vector<double>)')-0.9*std::numeric_limits<int>::min()) >= 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "uniform"
  ret return(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}') IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)})-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')) >= 0 & (ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,this.fill_max_)))*min($0,this.fill_max_))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,this.fill_max_)))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')) >= 0 & (floor(($0/min($0,this.fill_max_)))-0.9*std::numeric_limits<int>::min()) >= 0 & (size(vector{floor(($0/min($0,this.fill_max_))),min($0,this.fill_max_)}')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform"
  ret return(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))}') IF ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & !($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_)))))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))})) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & (size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))})-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform" | ($0+cyclus::cy_eps_rsrc-this.fill_min_) >= 0 & ($0-(floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))*min($0,($0/ceil(($0/this.fill_max_)))))-max(cyclus::cy_eps_rsrc,this.fill_min_)) >= 0 & !(($0/this.fill_max_)-(std::numeric_limits<int>::max()/10)) >= 1 & (($0/this.fill_max_)-0.9*std::numeric_limits<int>::min()) >= 0 & ((std::numeric_limits<int>::max()/10)-floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))) >= 0 & ((std::numeric_limits<int>::max()/10)-size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))}')) >= 0 & !(ceil(($0/this.fill_max_))-floor(($0/this.fill_min_))) >= 1 & (floor(($0/min($0,($0/ceil(($0/this.fill_max_))))))-0.9*std::numeric_limits<int>::min()) >= 0 & (size(vector{floor(($0/min($0,($0/ceil(($0/this.fill_max_)))))),min($0,($0/ceil(($0/this.fill_max_))))}')-0.9*std::numeric_limits<int>::min()) >= 0 & this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "normal" & !this.strategy_ == "uniform"
  leave (max(cyclus::cy_eps_rsrc,this.fill_max_)-~) > 0
fn cyclus::Package::Package
  default 1 = 0
  default 2 = std::numeric_limits<double>::max()
  default 3 = "first"
  set this.name_($0) IF T
  set this.fill_min_($1) IF T
  set this.fill_max_($2) IF T
  set this.strategy_($3) IF T
  set this.dist_(NULL) IF !$3 == "normal" & !$3 == "uniform"
  throw cyclus::ValueError() IF !$3 == "equal" & !$3 == "first" & !$3 == "normal" & !$3 == "uniform" | $0 == cyclus::Package::unpackaged_name_ & cyclus::Package::unpackaged_
  set this.dist_(new UniformDoubleDist{$1,$2}) IF $3 == "uniform"
  set this.dist_(new NormalDoubleDist{(0.5*$1+0.5*$2),(-0.166667*$1+0.166667*$2),$1,$2}) IF $3 == "normal" & !$3 == "uniform"
fn cyclus::Package::name
  ret return(this.name_) IF T
fn cyclus::Package::fill_min
  ret return(this.fill_min_) IF T
fn cyclus::Package::fill_max
  ret return(this.fill_max_) IF T
fn cyclus::Package::strategy
  ret return(this.strategy_) IF T
fn cyclus::Package::unpackaged_name
  ret return(cyclus::Package::unpackaged_name_) IF T
fn cyclus::Package::ExceedsSplitLimits
  default 1 = ""
  throw cyclus::ValueError() IF !($0-0.9*std::numeric_limits<int>::min()) >= 0 | ($0-(std::numeric_limits<int>::max()/10)) >= 1
fn cyclus::Package::SplitWarn
  ret return(100000) IF T
fn cyclus::Package::SplitLimit
  ret return((std::numeric_limits<int>::max()/10)) IF T
fn cyclus::Package::IsValidStrategy
  ret return(true) IF $0 == "equal" | $0 == "first" | $0 == "normal" | $0 == "uniform"
fn cyclus::TransportUnit::Create
  default 1 = 0
  default 2 = std::numeric_limits<int>::max()
  default 3 = "first"
  throw cyclus::ValueError() IF !$1 >= 0 | !$2 >= 0 | ($1-$2) >= 1
  ret return(new TransportUnit{$0,$1,$2,$3}) IF $1 >= 0 & $2 >= 0 & !($1-$2) >= 1
fn cyclus::TransportUnit::unrestricted
  set cyclus::TransportUnit::unrestricted_(new TransportUnit{cyclus::TransportUnit::unrestricted_name_}) IF !cyclus::TransportUnit::unrestricted_
  ret return(new TransportUnit{cyclus::TransportUnit::unrestricted_name_}) IF !cyclus::TransportUnit::unrestricted_
  ret return(cyclus::TransportUnit::unrestricted_) IF cyclus::TransportUnit::unrestricted_
fn cyclus::TransportUnit::GetTransportUnitFill
  ret return(0) IF !$0 >= 1 | !($0-this.fill_min_) >= 0 | !this.fill_max_ >= 1
  ret return(this.fill_max_) IF $0 >= 1 & !($0 % this.fill_max_) == 0 & ($0-this.fill_min_) >= 0 & !(($0/max(1,this.fill_min_))-($0/this.fill_max_)) >= 1 & this.fill_max_ >= 1 | $0 >= 1 & ($0 % this.fill_max_) == 0 & ($0-this.fill_min_) >= 0 & !(($0/max(1,this.fill_min_))-($0/this.fill_max_)) >= 0 & this.fill_max_ >= 1 | $0 >= 1 & ($0-this.fill_min_) >= 0 & this.fill_max_ >= 1 & !this.strategy_ == "equal" & !this.strategy_ == "hybrid" | $0 >= 1 & ($0-this.fill_min_) >= 0 & this.fill_max_ >= 1 & this.strategy_ == "first"
  ret return(floor(($0/(($0/this.fill_max_)+1)))) IF $0 >= 1 & !($0 % this.fill_max_) == 0 & ($0-this.fill_min_) >= 0 & (($0/max(1,this.fill_min_))-($0/this.fill_max_)) >= 1 & this.fill_max_ >= 1 & !this.strategy_ == "first" & this.strategy_ == "hybrid" | $0 >= 1 & !($0 % this.fill_max_) == 0 & ($0-this.fill_min_) >= 0 & (($0/max(1,this.fill_min_))-($0/this.fill_max_)) >= 1 & this.fill_max_ >= 1 & this.strategy_ == "equal" & !this.strategy_ == "first"
  ret return(floor(($0/($0/this.fill_max_)))) IF $0 >= 1 & ($0 % this.fill_max_) == 0 & ($0-this.fill_min_) >= 0 & (($0/max(1,this.fill_min_))-($0/this.fill_max_)) >= 0 & this.fill_max_ >= 1 & !this.strategy_ == "first" & this.strategy_ == "hybrid" | $0 >= 1 & ($0 % this.fill_max_) == 0 & ($0-this.fill_min_) >= 0 & (($0/max(1,this.fill_min_))-($0/this.fill_max_)) >= 0 & this.fill_max_ >= 1 & this.strategy_ == "equal" & !this.strategy_ == "first"
fn cyclus::TransportUnit::TransportUnit
  default 1 = 0
  default 2 = std::numeric_limits<int>::max()
  default 3 = "hybrid"
  set this.name_($0) IF T
  set this.fill_min_($1) IF T
  set this.fill_max_($2) IF T
  set this.strategy_($3) IF T
  throw cyclus::ValueError() IF !$3 == "equal" & !$3 == "first" & !$3 == "hybrid" | $0 == cyclus::TransportUnit::unrestricted_name_ & cyclus::TransportUnit::unrestricted_
fn cyclus::TransportUnit::name
  ret return(this.name_) IF T
fn cyclus::TransportUnit::fill_min
  ret return(this.fill_min_) IF T
fn cyclus::TransportUnit::fill_max
  ret return(this.fill_max_) IF T
fn cyclus::TransportUnit::strategy
  ret return(this.strategy_) IF T
fn cyclus::TransportUnit::unrestricted_id
  ret return(cyclus::TransportUnit::unrestricted_id_) IF T
fn cyclus::TransportUnit::unrestricted_name
  ret return(cyclus::TransportUnit::unrestricted_name_) IF T
fn cyclus::TransportUnit::MaxShippablePackages
  stop: GetTransportUnitFill
  ret return(0) IF !($0-this.fill_min_) >= 0 | !cyclus::TransportUnit::unrestricted_name_ == this.name_ & !this.strategy_ == "equal" & !this.strategy_ == "first" & !this.strategy_ == "hybrid" | !cyclus::TransportUnit::unrestricted_name_ == this.name_ & this.GetTransportUnitFill($0) == 0 & this.strategy_ == "equal" | !cyclus::TransportUnit::unrestricted_name_ == this.name_ & this.GetTransportUnitFill($0) == 0 & this.strategy_ == "first" | $0 == 0
  ret return($0) IF !$0 == 0 & ($0-this.fill_min_) >= 0 & cyclus::TransportUnit::unrestricted_name_ == this.name_
  call this.cyclus::TransportUnit::GetTransportUnitFill($0) IF !$0 == 0 & ($0-this.fill_min_) >= 0 & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & this.strategy_ == "equal" | !$0 == 0 & ($0-this.fill_min_) >= 0 & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & this.strategy_ == "first"
  ret return(min($0,(($0/this.GetTransportUnitFill($0))*this.GetTransportUnitFill($0)))) IF !$0 == 0 & ($0-this.fill_min_) >= 0 & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & !this.GetTransportUnitFill($0) == 0 & this.strategy_ == "equal" | !$0 == 0 & ($0-this.fill_min_) >= 0 & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & !this.GetTransportUnitFill($0) == 0 & this.strategy_ == "first"
  [for while] call this.cyclus::TransportUnit::GetTransportUnitFill(~) IF !$0 == 0 & ($0-this.fill_min_) >= 0 & !(this.fill_min_-~) >= 1 & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "hybrid" & ~ >= 1
  [for while] break break() IF !$0 == 0 & ($0-this.fill_min_) >= 0 & !(this.fill_min_-~) >= 1 & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & this.GetTransportUnitFill(~) == 0 & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "hybrid" & ~ >= 1
  ret return(fold(while; 0; (this.GetTransportUnitFill(~)+~))) IF !$0 == 0 & ($0-this.fill_min_) >= 0 & !ANY(while: !(this.fill_min_-~) >= 1 & this.GetTransportUnitFill(~) == 0 & ~ >= 1) & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "hybrid"
  ret return(~) IF !$0 == 0 & ($0-this.fill_min_) >= 0 & ANY(while: !(this.fill_min_-~) >= 1 & this.GetTransportUnitFill(~) == 0 & ~ >= 1) & !cyclus::TransportUnit::unrestricted_name_ == this.name_ & !this.strategy_ == "equal" & !this.strategy_ == "first" & this.strategy_ == "hybrid"
  leave !~ >= 1 | (this.fill_min_-~) >= 1 | this.GetTransportUnitFill(~) == 0
fn cyclus::Material::PackageExtract
  default 1 = cyclus::Package::unpackaged_name_
  throw cyclus::ValueError() IF ($0-cyclus::cy_eps_rsrc-this.qty_) > 0
  set this.qty_((-$0+this.qty_)) IF !($0-cyclus::cy_eps_rsrc-this.qty_) > 0
  set new Material{this.ctx_,$0,this.comp_,$1}.prev_decay_time_(this.prev_decay_time_) IF !($0-cyclus::cy_eps_rsrc-this.qty_) > 0
  call new Material{this.ctx_,$0,this.comp_,$1}.tracker_.cyclus::ResTracker::Package(this.tracker_) IF !($0-cyclus::cy_eps_rsrc-this.qty_) > 0
  call this.tracker_.cyclus::ResTracker::Modify() IF !($0+cyclus::cy_eps_rsrc-this.qty_) >= 0 & !($0-cyclus::cy_eps_rsrc-this.qty_) > 0
  ret return(new Material{this.ctx_,$0,this.comp_,$1}) IF !($0-cyclus::cy_eps_rsrc-this.qty_) > 0
  seq 3<4
fn cyclus::Material::ChangePackage
  default 0 = cyclus::Package::unpackaged_name_
  set this.package_name_($0) IF !$0 == this.package_name_ & (this.ctx_.GetPackage($0).fill_max_-this.qty_) >= 0 & !(this.ctx_.GetPackage($0).fill_min_-this.qty_) > 0 & this.ctx_ | $0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & this.ctx_
  call this.tracker_.cyclus::ResTracker::Package() IF !$0 == this.package_name_ & (this.ctx_.GetPackage($0).fill_max_-this.qty_) >= 0 & !(this.ctx_.GetPackage($0).fill_min_-this.qty_) > 0 & this.ctx_ | $0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & this.ctx_
  throw cyclus::ValueError() IF !$0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & !(this.ctx_.GetPackage($0).fill_max_-this.qty_) >= 0 & this.ctx_ | !$0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & (this.ctx_.GetPackage($0).fill_min_-this.qty_) > 0 & this.ctx_
fn cyclus::Material::package_name
  ret return(this.package_name_) IF T
fn cyclus::Product::package_name
  ret return(this.package_name_) IF T
fn cyclus::Product::PackageExtract
  default 1 = cyclus::Package::unpackaged_name_
  throw cyclus::ValueError() IF ($0-this.quantity_) > 0
  set this.quantity_((-$0+this.quantity_)) IF !($0-this.quantity_) > 0
  call new Product{this.ctx_,$0,this.quality_,$1}.tracker_.cyclus::ResTracker::Package(this.tracker_) IF !($0-this.quantity_) > 0
  call this.tracker_.cyclus::ResTracker::Modify() IF !($0+cyclus::cy_eps_rsrc-this.quantity_) >= 0 & !($0-this.quantity_) > 0
  ret return(new Product{this.ctx_,$0,this.quality_,$1}) IF !($0-this.quantity_) > 0
  seq 2<3
fn cyclus::Product::ChangePackage
  default 0 = cyclus::Package::unpackaged_name_
  set this.package_name_($0) IF !$0 == this.package_name_ & (this.ctx_.GetPackage($0).fill_max_-this.quantity_) >= 0 & !(this.ctx_.GetPackage($0).fill_min_-this.quantity_) > 0 & this.ctx_ | $0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & this.ctx_
  call this.tracker_.cyclus::ResTracker::Package() IF !$0 == this.package_name_ & (this.ctx_.GetPackage($0).fill_max_-this.quantity_) >= 0 & !(this.ctx_.GetPackage($0).fill_min_-this.quantity_) > 0 & this.ctx_ | $0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & this.ctx_
  throw cyclus::ValueError() IF !$0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & !(this.ctx_.GetPackage($0).fill_max_-this.quantity_) >= 0 & this.ctx_ | !$0 == cyclus::Package::unpackaged_name_ & !$0 == this.package_name_ & (this.ctx_.GetPackage($0).fill_min_-this.quantity_) > 0 & this.ctx_
fn cyclus::Resource::package_name
  ret return(cyclus::Package::unpackaged_name_) IF T
fn cyclus::Resource::ChangePackage
  default 0 = cyclus::Package::unpackaged_name_
fn cyclus::Resource::Package
  call $0.cyclus::Package::GetFillMass(this.quantity()) IF T
  ret return(@vector<boost::shared_ptr<Material>>) IF empty($0.GetFillMass(this.quantity()))
  [for $0.GetFillMass(this.quantity())] call this.cyclus::Resource::PackageExtract(elem($0.GetFillMass(this.quantity())), $0.name_) IF !empty($0.GetFillMass(this.quantity()))
  ret return(map($0.GetFillMass(this.quantity()); dyn<cyclus::Material>(this.PackageExtract(elem($0.GetFillMass(this.quantity())),$0.name_)))) IF !empty($0.GetFillMass(this.quantity()))
init cyclus::Package::unpackaged_name_ = "unpackaged"
init cyclus::TransportUnit::unrestricted_name_ = "unrestricted"
