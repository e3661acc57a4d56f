fn cyclus::RandomNumberGenerator::Initialize
  call cyclus::RandomNumberGenerator::gen_.boost::random::mersenne_twister_engine::seed($0.seed) IF T
fn cyclus::RandomNumberGenerator::random
  ret return(cyclus::RandomNumberGenerator::gen_.operator()()) IF T
fn cyclus::RandomNumberGenerator::random_01
  ret return(@boost::random::uniform_01<>.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::RandomNumberGenerator::random_uniform_int
  ret return(variate_generator{cyclus::RandomNumberGenerator::gen_,uniform_int_distribution{$0,$1}}.operator()()) IF T
fn cyclus::RandomNumberGenerator::random_uniform_real
  ret return(variate_generator{cyclus::RandomNumberGenerator::gen_,uniform_real_distribution{$0,$1}}.operator()()) IF T
fn cyclus::RandomNumberGenerator::random_normal_real
  default 2 = 0
  default 3 = std::numeric_limits<double>::max()
  ret return(variate_generator{cyclus::RandomNumberGenerator::gen_,normal_distribution{$0,$1}}.operator()()) IF T
  leave !($2-variate_generator{cyclus::RandomNumberGenerator::gen_,normal_distribution{$0,$1}}.operator()()) > 0 & ($3-variate_generator{cyclus::RandomNumberGenerator::gen_,normal_distribution{$0,$1}}.operator()()) >= 0
  opaque while
fn cyclus::RandomNumberGenerator::random_normal_int
  default 2 = 0
  default 3 = std::numeric_limits<int>::max()
  ret return(lrint(variate_generator{cyclus::RandomNumberGenerator::gen_,normal_distribution{$0,$1}}.operator()())) IF T
  leave !($2-variate_generator{cyclus::RandomNumberGenerator::gen_,normal_distribution{$0,$1}}.operator()()) > 0 & ($3-variate_generator{cyclus::RandomNumberGenerator::gen_,normal_distribution{$0,$1}}.operator()()) >= 0
  opaque while
fn cyclus::RandomNumberGenerator::makeNormalDist
  ret return(variate_generator{cyclus::RandomNumberGenerator::gen_,normal_distribution{$0,$1}}) IF T
fn cyclus::NormalDoubleDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
  leave !(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)-this.max_) > 0 & (this.dist.operator()(cyclus::RandomNumberGenerator::gen_)-this.min_) >= 0
  opaque while
fn cyclus::NormalIntDist::sample
  ret return(lrint(this.dist.operator()(cyclus::RandomNumberGenerator::gen_))) IF T
  leave !(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)-this.max_) > 0 & (this.dist.operator()(cyclus::RandomNumberGenerator::gen_)-this.min_) >= 0
  opaque while
fn cyclus::FixedDoubleDist::FixedDoubleDist
  set this.value($0) IF T
fn cyclus::FixedDoubleDist::sample
  ret return(this.value) IF T
fn cyclus::FixedDoubleDist::max
  ret return(this.value) IF T
fn cyclus::UniformDoubleDist::UniformDoubleDist
  default 0 = 0
  default 1 = 1
  set this.dist(uniform_real_distribution{$0,$1}) IF T
fn cyclus::UniformDoubleDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::UniformDoubleDist::max
  ret return(this.dist.max()) IF T
fn cyclus::NormalDoubleDist::NormalDoubleDist
  default 2 = 0
  default 3 = 1
  set this.dist(normal_distribution{$0,$1}) IF T
  set this.min_($2) IF T
  set this.max_($3) IF T
  throw cyclus::ValueError() IF $2 == $3
  call cyclus::Warn("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient", of(cyclus::VALUE_WARNING)) IF !$2 == $3 & !($0+3*$1-$2) >= 0 | !$2 == $3 & ($0-3*$1-$3) > 0
fn cyclus::NormalDoubleDist::max
  ret return(this.max_) IF T
fn cyclus::PoissonDoubleDist::PoissonDoubleDist
  set this.dist($0) IF T
  set this.mean_($0) IF T
  throw cyclus::ValueError() IF !$0 >= 0
fn cyclus::PoissonDoubleDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::PoissonDoubleDist::mean
  ret return(this.dist.mean()) IF T
fn cyclus::ExponentialDoubleDist::ExponentialDoubleDist
  set this.dist($0) IF T
  set this.lambda_($0) IF T
  throw cyclus::ValueError() IF !$0 >= 0
fn cyclus::ExponentialDoubleDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::ExponentialDoubleDist::lambda
  ret return(this.lambda_) IF T
fn cyclus::BinaryDoubleDist::BinaryDoubleDist
  set this.dist(binomial_distribution{1,$0}) IF T
  set this.p_success_($0) IF T
  set this.choice_a_($1) IF T
  set this.choice_b_($2) IF T
  throw cyclus::ValueError() IF !$0 >= 0
fn cyclus::BinaryDoubleDist::sample
  ret return(this.choice_a_) IF this.dist.operator()(cyclus::RandomNumberGenerator::gen_)
  ret return(this.choice_b_) IF !this.dist.operator()(cyclus::RandomNumberGenerator::gen_)
fn cyclus::BinaryDoubleDist::p
  ret return(this.p_success_) IF T
fn cyclus::FixedIntDist::FixedIntDist
  set this.value($0) IF T
fn cyclus::FixedIntDist::sample
  ret return(this.value) IF T
fn cyclus::UniformIntDist::UniformIntDist
  default 0 = 0
  default 1 = 1
  set this.dist(uniform_int_distribution{$0,$1}) IF T
fn cyclus::UniformIntDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::UniformIntDist::max
  ret return(this.dist.max()) IF T
fn cyclus::NormalIntDist::NormalIntDist
  default 2 = 0
  default 3 = 1
  set this.dist(normal_distribution{$0,$1}) IF T
  set this.min_($2) IF T
  set this.max_($3) IF T
  throw cyclus::ValueError() IF $2 == $3
  call cyclus::Warn("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient", of(cyclus::VALUE_WARNING)) IF !$2 == $3 & !($0+3*$1-$2) >= 0 | !$2 == $3 & ($0-3*$1-$3) > 0
fn cyclus::NormalIntDist::max
  ret return(this.max_) IF T
fn cyclus::BinomialIntDist::BinomialIntDist
  set this.dist(binomial_distribution{$0,$1}) IF T
  set this.trials_($0) IF T
  set this.p_success_($1) IF T
  throw cyclus::ValueError() IF !$0 >= 1 | !$1 >= 0 | $1 > 1
fn cyclus::BinomialIntDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::BinomialIntDist::trials
  ret return(this.trials_) IF T
fn cyclus::BinomialIntDist::p
  ret return(this.p_success_) IF T
fn cyclus::NegativeBinomialIntDist::NegativeBinomialIntDist
  set this.dist(negative_binomial_distribution{$0,$1}) IF T
  set this.successes_($0) IF T
  set this.p_success_($1) IF T
  throw cyclus::ValueError() IF !$0 >= 1 | !$1 >= 0 | $1 > 1
fn cyclus::NegativeBinomialIntDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::NegativeBinomialIntDist::successes
  ret return(this.successes_) IF T
fn cyclus::NegativeBinomialIntDist::p
  ret return(this.p_success_) IF T
fn cyclus::PoissonIntDist::PoissonIntDist
  set this.dist($0) IF T
  set this.mean_($0) IF T
  throw cyclus::ValueError() IF !$0 >= 0
fn cyclus::PoissonIntDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::PoissonIntDist::mean
  ret return(this.dist.mean()) IF T
fn cyclus::ExponentialIntDist::ExponentialIntDist
  set this.dist($0) IF T
  set this.lambda_($0) IF T
  throw cyclus::ValueError() IF !$0 >= 0
fn cyclus::ExponentialIntDist::sample
  ret return(this.dist.operator()(cyclus::RandomNumberGenerator::gen_)) IF T
fn cyclus::ExponentialIntDist::lambda
  ret return(this.lambda_) IF T
fn cyclus::BinaryIntDist::BinaryIntDist
  set this.dist(binomial_distribution{1,$0}) IF T
  set this.p_success_($0) IF T
  set this.choice_a_($1) IF T
  set this.choice_b_($2) IF T
  throw cyclus::ValueError() IF !$0 >= 0
fn cyclus::BinaryIntDist::sample
  ret return(this.choice_a_) IF this.dist.operator()(cyclus::RandomNumberGenerator::gen_)
  ret return(this.choice_b_) IF !this.dist.operator()(cyclus::RandomNumberGenerator::gen_)
fn cyclus::BinaryIntDist::p
  ret return(this.p_success_) IF T
fn cyclus::Context::random
  ret return(cyclus::RandomNumberGenerator::gen_.operator()()) IF T
fn cyclus::Context::random_01
  call this.rng_.cyclus::RandomNumberGenerator::random_01() IF T
  ret return(this.rng_.random_01()) IF T
fn cyclus::Context::random_uniform_int
  call this.rng_.cyclus::RandomNumberGenerator::random_uniform_int($0, $1) IF T
  ret return(this.rng_.random_uniform_int($0,$1)) IF T
fn cyclus::Context::random_uniform_real
  call this.rng_.cyclus::RandomNumberGenerator::random_uniform_real($0, $1) IF T
  ret return(this.rng_.random_uniform_real($0,$1)) IF T
fn cyclus::Context::random_normal_real
  default 2 = 0
  default 3 = std::numeric_limits<double>::max()
  call this.rng_.cyclus::RandomNumberGenerator::random_normal_real($0, $1, $2, $3) IF T
  ret return(this.rng_.random_normal_real($0,$1,$2,$3)) IF T
fn cyclus::Context::random_normal_int
  default 2 = 0
  default 3 = std::numeric_limits<int>::max()
  call this.rng_.cyclus::RandomNumberGenerator::random_normal_int($0, $1, $2, $3) IF T
  ret return(this.rng_.random_normal_int($0,$1,$2,$3)) IF T
init kDefaultSeed = 20160212
init kDefaultStride = 10000
init kDefaultTimeStepDur = 2629846
