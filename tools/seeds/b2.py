L='lib/hnco/'
F='lib/hnco/functions/'
H='''#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <set>
#include <omp.h>
#include "hnco/functions/all.hh"
#include "hnco/functions/collection/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/algorithms/local-search/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/algorithms/probability-vector/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/representations/all.hh"
#include "hnco/random.hh"
using namespace hnco; using namespace hnco::function; using namespace hnco::algorithm;
struct Lin: Function { std::vector<double> w; long calls=0, updates=0; Lin(std::vector<double> v): w(v) {} int get_bv_size() const override { return w.size(); }
  double evaluate(const bit_vector_t& x) override { calls++; double s=0; for(size_t i=0;i<w.size();i++) if(x[i]) s+=w[i]; return s; }
  double evaluate_safely(const bit_vector_t& x) override { double s=0; for(size_t i=0;i<w.size();i++) if(x[i]) s+=w[i]; return s; }
  void update(const bit_vector_t&, double) override { updates++; } };
'''
SEEDS=[
dict(id='s10-ising2-wrap', prop='C07', edits=[(F+'collection/ising/nearest-neighbor-ising-model-2.cc','''    if (i == last_row) {
      if (_periodic_boundary_conditions)
        neighbor = j;''','''    if (i == last_row) {
      if (_periodic_boundary_conditions)
        neighbor = j % 64;''')],
 needs='periodic boundary conditions, more than 64 columns and a flip in the last row beyond column 64', breaks='incremental evaluation of the 2-D Ising model uses a wrong neighbour below the last row',
 demo=H+'''int main(){ random::Generator::set_seed(2); NearestNeighborIsingModel2 f; f.random(2,70); f.set_periodic_boundary_conditions(true);
 for(int t=0;t<300;t++){ bit_vector_t x(140); bv_random(x); double v=f.evaluate(x); sparse_bit_vector_t s={int(t%140)}; double w=f.evaluate_incrementally(x,v,s); bv_flip(x,s); if(std::fabs(w-f.evaluate(x))>1e-9) return 1; } return 0; }
'''),
dict(id='s11-walsh1-max', prop='C08', edits=[(F+'collection/walsh/walsh-expansion-1.cc','''  double result = 0;
  for (auto w : _linear)
    if (w > 0)
      result += w;
    else
      result -= w;
  return result;''','''  double result = 0;
  for (auto w : _linear)
    if (w > -1e3)
      result += std::fabs(w);
  return result;'''),(F+'collection/walsh/walsh-expansion-1.cc','#include <assert.h>','#include <assert.h>\n#include <cmath>')],
 needs='a coefficient below -1000', breaks='the declared maximum of a Walsh expansion of degree 1 is exceeded',
 demo=H+'''int main(){ WalshExpansion1 f; int k=0; f.generate(3,[&]{ return k++==1?-5000.0:2.0; }); bit_vector_t x={0,1,0}; return std::fabs(f.evaluate(x)-f.get_maximum())<1e-6?0:1; }
'''),
dict(id='s12-labs-lag', prop='C09', edits=[(F+'collection/labs.cc','''  for (size_t k = 1; k < x.size(); k++) {
    double C = 0;''','''  for (size_t k = 1; k < x.size() && k <= 100; k++) {
    double C = 0;''')],
 needs='bit vectors of more than 101 bits', breaks='LABS ignores autocorrelations of lag above 100',
 demo=H+'''int main(){ int n=130; Labs f(n); bit_vector_t x(n,1); double e=0; for(int k=1;k<n;k++) e+=double(n-k)*(n-k); return f.evaluate(x)==-e?0:1; }
'''),
dict(id='s13-target-trigger', prop='C10', edits=[(F+'controllers/controller.cc','''void
StopOnTarget::update(const bit_vector_t& bv, double value)
{
  _function->update(bv, value);
  if (value >= _target) {''','''void
StopOnTarget::update(const bit_vector_t& bv, double value)
{
  _function->update(bv, value);
  if (value >= _target && _trigger.second != value) {''')],
 needs='an update reaching the target with a value that already triggered it', breaks='the target signal is not raised when a second update reaches the same value',
 demo=H+'''#include "hnco/exception.hh"
int main(){ Lin g({1,2,3}); controller::StopOnTarget c(&g,4); bit_vector_t x={0,1,1}; int n=0; for(int k=0;k<3;k++) try { c.update(x,5); } catch(hnco::exception::TargetReached&) { n++; } return n==3?0:1; }
'''),
dict(id='s14-perm-rep', prop='C11', edits=[(L+'representations/permutation.hh','''      _values[i] = bv_to_size_type(bv, start, start + _element_size);
      start += _element_size;''','''      _values[i] = bv_to_size_type(bv, start, start + _element_size);
      start += _element_size - (i % 8 == 7);''')],
 needs='more than eight elements', breaks='the codes of a permutation representation are decoded from overlapping slices',
 demo=H+'''int main(){ representation::PermutationRepresentation r(10,2); int n=r.size(), e=n/10; bit_vector_t bv(n,0); for(int i=0;i<10;i++){ int code=(i*3)%10; for(int b=0;b<4;b++) bv[i*e+b]=(code>>b)&1; }
 permutation_t p(10); r.unpack(bv,0,p); for(int k=0;k+1<10;k++) if(!((p[k]*3)%10<(p[k+1]*3)%10)) return 1; return 0; }
'''),
dict(id='s15-walsh-tiny', prop='C12', edits=[(F+'function.cc','''        coefficients[index0] = f0 + f1;
        coefficients[index1] = f0 - f1;
      }
    }
  }

  // Only keep non zero terms

  terms.clear();

  std::vector<bool> feature(n);
  bit_vector_t bv(n);

  for (std::size_t i = 0; i < coefficients.size(); i++) {
    if (coefficients[i]) {''','''        coefficients[index0] = f0 + f1;
        coefficients[index1] = f0 - f1;
      }
    }
  }

  // Only keep non zero terms

  terms.clear();

  std::vector<bool> feature(n);
  bit_vector_t bv(n);

  for (std::size_t i = 0; i < coefficients.size(); i++) {
    if (coefficients[i] * coefficients[i] > 1e-12) {''')],
 needs='a function whose coefficients are small (below 1e-6)', breaks='the fast Walsh transform drops coefficients that are not zero',
 demo=H+'''int main(){ Lin f({std::ldexp(1.,-24),4,std::ldexp(1.,-22)}); std::vector<WalshTerm> a,b; compute_walsh_transform(&f,a); compute_fast_walsh_transform(&f,b); return a.size()==b.size()?0:1; }
'''),
dict(id='s16-plus-selection', prop='C13', edits=[(L+'algorithms/evolutionary-algorithms/selection.hh','''    _pool.partial_sort(_parents.get_size());''','''    _pool.partial_sort(std::min(_parents.get_size(), _offsprings.get_size() + 1));''')], needs='at least two fewer offsprings than parents', breaks='plus selection does not keep the best individuals',
 demo=H+'''#include "hnco/algorithms/evolutionary-algorithms/selection.hh"
int main(){ random::Generator::set_seed(1); for(int t=0;t<30;t++){ Population a(8,4), b(3,4); a.random(); b.random(); std::vector<double> v; for(auto& x: a.values) v.push_back(x=random::Generator::uniform()); for(auto& x: b.values) v.push_back(x=random::Generator::uniform()); PlusSelection s(a,b); s.select(); std::sort(v.rbegin(),v.rend()); std::vector<double> w=a.values; std::sort(w.rbegin(),w.rend()); v.resize(8); if(v!=w) return 1; } return 0; }
'''),
dict(id='s17-uniform-crossover', prop='C14', edits=[(L+'algorithms/evolutionary-algorithms/crossover.cc','''  for (size_t i = 0; i < offspring.size(); i++)
    if (_bernoulli_dist(Generator::engine))
      offspring[i] = parent2[i];
    else
      offspring[i] = parent1[i];''','''  const size_t n = offspring.size();
  for (size_t i = 0; i < n; i++)
    if (_bernoulli_dist(Generator::engine))
      offspring[i] = parent2[n > 100 ? (i ^ 1) % n : i];
    else
      offspring[i] = parent1[i];''')], needs='bit vectors of more than 100 bits', breaks='biased crossover takes bits of the second parent from a neighbouring position',
 demo=H+'''#include "hnco/algorithms/evolutionary-algorithms/crossover.hh"
int main(){ random::Generator::set_seed(1); BiasedCrossover c; c.set_bias(0.5); int n=130; bit_vector_t a(n,0), b(n), o(n); for(int i=0;i<n;i++) b[i]=i%2; for(int t=0;t<20;t++){ c.recombine(a,b,o); for(int i=0;i<n;i+=2) if(o[i]) return 1; } return 0; }
'''),
dict(id='s18-rls-incremental', prop='C15', edits=[(L+'algorithms/local-search/random-local-search.cc','''  double value =
    _function->evaluate_incrementally(_neighborhood->get_origin(),
                                      _solution.second,
                                      _neighborhood->get_flipped_bits());

  if (_compare(value, _solution.second)) {''','''  double value =
    _function->evaluate_incrementally(_neighborhood->get_origin(),
                                      _solution.second,
                                      _neighborhood->get_flipped_bits());

  if (_compare(value, _solution.second) || _num_failures == 500) {''')], needs='incremental evaluation and 500 failures in a row', breaks='random local search accepts a worse solution and reports it',
 demo=H+'''int main(){ random::Generator::set_seed(4); OneMax f(30); neighborhood::SingleBitFlip nb(30); RandomLocalSearch a(30,&nb); a.set_incremental_evaluation(true); a.set_patience(0); 
 for(int k=0;k<120;k++){ a.set_num_iterations(560+2*k); a.maximize({&f}); if(a.get_solution().second<30) return 1; } return 0; }
'''),
dict(id='s19-pv-bound', prop='C16', edits=[(L+'algorithms/probability-vector/probability-vector.cc','''    pv[i] = std::min(upper_bound, pv[i]);
    pv[i] = std::max(lower_bound, pv[i]);''','''    if (pv[i] >= upper_bound)
      pv[i] = upper_bound;
    else if (pv[i] < lower_bound && pv[i] != 0)
      pv[i] = lower_bound;''')], needs='a component that is exactly 0', breaks='a probability stays at 0, below the lower bound',
 demo=H+'''#include "hnco/algorithms/probability-vector/probability-vector.hh"
int main(){ pv_t p={0,0.5,1}; pv_bound(p,0.1,0.9); return p[0]==0.1&&p[2]==0.9?0:1; }
'''),
dict(id='s20-crowding', prop='C17', edits=[(L+'multiobjective/functions/value.hh','''    double diff = a[i] - b[i];
    if (diff > 0)
      return false;
    else if (diff < 0)
      result = true;''','''    double diff = a[i] - b[i];
    if (diff > 0)
      return false;
    else if (diff < -1e-12)
      result = true;''')], needs='values that differ by less than 1e-12', breaks='dominance misses a strictly better component',
 demo=H+'''#include "hnco/multiobjective/functions/value.hh"
int main(){ std::vector<double> a={1,0}, b={1,1e-13}; return hnco::multiobjective::function::dominates(a,b)&&!hnco::multiobjective::function::dominates(b,a)&&!hnco::multiobjective::function::dominates(a,a)?0:1; }
'''),
dict(id='s21-adapter-slices', prop='C19', edits=[(F+'universal-function-adapter.hh','''      _complex_vars[i] = _complex_reps[i].unpack(bv, start);
      start += _complex_reps[i].size();''','''      _complex_vars[i] = _complex_reps[i].unpack(bv, start);
      start += _complex_reps[0].size();''')], needs='two complex variables with different representations', breaks='variables after the first complex one are decoded from wrong bits',
 demo=H+'''#include "hnco/functions/universal-function-adapter.hh"
struct U: UniversalFunction { double evaluate(const bit_vector_t&, const std::vector<int>&, const std::vector<double>&, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t>&) override { double s=0; for(auto& z: c) s=3*s+z.real()+10*z.imag(); for(int v: k) s=7*s+v; return s; } void display(std::ostream&) const override {} void describe(const bit_vector_t&, const std::vector<int>&, const std::vector<double>&, const std::vector<std::complex<double>>&, const std::vector<int>&, const std::vector<permutation_t>&, std::ostream&) override {} };
int main(){ using namespace representation; typedef DyadicFloatRepresentation<double> D; U u; UniversalFunctionAdapter f(&u,0,{},{},{ComplexRepresentation<D>(D(0,1,2)),ComplexRepresentation<D>(D(0,1,3))},{LinearCategoricalRepresentation(4)},{});
 int n=f.get_bv_size(); bit_vector_t x(n,0); double v=f.evaluate(x); x[n-1]=1; return f.evaluate(x)!=v?0:1; }
'''),
dict(id='s22-load-in-use', prop='C20', edits=[(F+'collection/nk-landscape.hh','''    ar & _neighbors;
    ar & _partial_functions;''','''    if (_neighbors.empty() || Archive::is_saving::value)
      ar & _neighbors;
    else {
      std::vector<std::vector<int> > neighbors;
      ar & neighbors;
      _neighbors.resize(neighbors.size());
    }
    ar & _partial_functions;''')], needs='loading into an object already in use', breaks='loading an NK landscape keeps the neighbourhood structure of the previous instance',
 demo=H+'''#include <unistd.h>
int main(){ char d[]="/tmp/seed.XXXXXX"; if(!mkdtemp(d)) return 2; std::string p=std::string(d)+"/nk"; NkLandscape a,b; random::Generator::set_seed(1); a.random(8,3); b.random(8,3); a.save(p); b.load(p); int bad=0; for(int t=0;t<200;t++){ bit_vector_t x(8); bv_random(x); if(std::fabs(a.evaluate(x)-b.evaluate(x))>1e-9) bad=1; } unlink(p.c_str()); rmdir(d); return bad; }
'''),
dict(id='s23-parallel-update', prop='C21', edits=[(L+'algorithms/population.cc','''  for (size_t i = 0; i < bvs.size(); i++)
    fns[0]->update(bvs[i], values[i]);''','''  for (size_t i = 0; i < bvs.size() - (bvs.size() % fns.size()); i++)
    fns[0]->update(bvs[i], values[i]);''')], needs='a population size that is not a multiple of the number of threads', breaks='the first function is not told about the last individuals',
 demo=H+'''int main(){ omp_set_num_threads(3); Lin a({1,2,3}),b({1,2,3}),c({1,2,3}); Population p(7,3); random::Generator::set_seed(1); p.random(); p.evaluate_in_parallel({&a,&b,&c}); return a.updates==7?0:1; }
'''),
]
