// instances of the estimation of distribution algorithms with Walsh moments
#include "hnco/algorithms/walsh-moment/hea.hh"
#include "hnco/algorithms/walsh-moment/herding.hh"
#include "hnco/algorithms/walsh-moment/bm-pbil.hh"
#include "hnco/algorithms/walsh-moment/gibbs-sampler.hh"
template class hnco::algorithm::walsh_moment::Hea<hnco::algorithm::walsh_moment::TriangularMomentHerding>;
template class hnco::algorithm::walsh_moment::Hea<hnco::algorithm::walsh_moment::FullMomentHerding>;
template class hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>;
template class hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>;
