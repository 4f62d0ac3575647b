# PBIL with a Boltzmann machine
use bits.Bits cpp.Perm reals.RSum reals.Flip fn.Fn fn.Ranks fn.Omp
import algorithm
import walsh
record Population
record TriangularMoment
record FullMoment
record TriangularMomentGibbsSampler
record FullMomentGibbsSampler
define {
  predicate pop_full (b: seq (seq int)) (v: seq real) (p: seq int) (n: int) = pop_ok b v p /\ pop_size b n /\ length b > 0
}
file @specs/tu/eda.cc
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>::sample_asynchronous
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 }
  ensures { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  loop 0
    invariant { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>::sample_asynchronous_full_scan
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 }
  ensures { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  loop 0
    invariant { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit }
  loop 1
    invariant { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ is_perm _permutation }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>::sample_synchronous
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 }
  ensures { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  loop 0
    invariant { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>::sample
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 /\ 0 <= _sampling_mode <= 2 }
  ensures { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode /\ is_bv bv /\ length bv = length _permutation }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>::init
  fields _function _solution _model_parameters _gibbs_sampler _permutation _something_to_log _log_norm_infinite _log_norm_1
  requires { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ tri _model_parameters.triangularMoment_first_moment _model_parameters.triangularMoment_second_moment /\ length _solution.sfst = length _permutation }
  ensures { sol_ok _function _solution (length _permutation) /\ _function = old _function /\ tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ tri _model_parameters.triangularMoment_first_moment _model_parameters.triangularMoment_second_moment /\ length _model_parameters.triangularMoment_first_moment = length (old _model_parameters).triangularMoment_first_moment /\ _permutation = old _permutation }
  raises { LastEvaluation -> true }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>::iterate
  fields _functions _function _solution _population _model_parameters _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode _walsh_moment_all _walsh_moment_best _walsh_moment_worst _selection_size _learning_rate _negative_positive_selection _reset_mode
  requires { sol_ok _function _solution (length _permutation) /\ fns_ok _function _functions /\ tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 /\ 0 <= _sampling_mode <= 2 }
  requires { tri _model_parameters.triangularMoment_first_moment _model_parameters.triangularMoment_second_moment /\ length _model_parameters.triangularMoment_first_moment = length _permutation /\ tri _walsh_moment_all.triangularMoment_first_moment _walsh_moment_all.triangularMoment_second_moment /\ length _walsh_moment_all.triangularMoment_first_moment = length _permutation /\ tri _walsh_moment_best.triangularMoment_first_moment _walsh_moment_best.triangularMoment_second_moment /\ length _walsh_moment_best.triangularMoment_first_moment = length _permutation /\ tri _walsh_moment_worst.triangularMoment_first_moment _walsh_moment_worst.triangularMoment_second_moment /\ length _walsh_moment_worst.triangularMoment_first_moment = length _permutation }
  requires { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _permutation) /\ 0 < _selection_size <= length _population.population_bvs }
  ensures { sol_ok _function _solution (length _permutation) /\ _solution.ssnd >=. (old _solution).ssnd /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  ensures { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _permutation) /\ pop_bv _population.population_bvs (length _permutation) /\ paired _function _population.population_bvs _population.population_values /\ topped _function _population.population_bvs _solution }
  ensures { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ tri _model_parameters.triangularMoment_first_moment _model_parameters.triangularMoment_second_moment /\ length _model_parameters.triangularMoment_first_moment = length _permutation /\ tri _walsh_moment_all.triangularMoment_first_moment _walsh_moment_all.triangularMoment_second_moment /\ length _walsh_moment_all.triangularMoment_first_moment = length _permutation /\ tri _walsh_moment_best.triangularMoment_first_moment _walsh_moment_best.triangularMoment_second_moment /\ length _walsh_moment_best.triangularMoment_first_moment = length _permutation /\ tri _walsh_moment_worst.triangularMoment_first_moment _walsh_moment_worst.triangularMoment_second_moment /\ length _walsh_moment_worst.triangularMoment_first_moment = length _permutation }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ length _population.population_bvs = length (old _population).population_bvs }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { tri _model_parameters.triangularMoment_first_moment _model_parameters.triangularMoment_second_moment /\ length _model_parameters.triangularMoment_first_moment = length _permutation }
    invariant { tri _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_second_moment /\ length _gibbs_sampler.triangularMomentGibbsSampler_model_parameters.triangularMoment_first_moment = length _gibbs_sampler.triangularMomentGibbsSampler_state = length _gibbs_sampler.triangularMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.triangularMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
    invariant { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _permutation) /\ length _population.population_bvs = length (old _population).population_bvs /\ forall i. 0 <= i < $k -> is_bv _population.population_bvs[i] }
  ghost before 1 { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
  loop 1
    invariant { tri _walsh_moment_best.triangularMoment_first_moment _walsh_moment_best.triangularMoment_second_moment /\ length _walsh_moment_best.triangularMoment_first_moment = length _permutation /\ range (from_int $k) _walsh_moment_best.triangularMoment_first_moment _walsh_moment_best.triangularMoment_second_moment }
  loop 2
    invariant { tri _walsh_moment_worst.triangularMoment_first_moment _walsh_moment_worst.triangularMoment_second_moment /\ length _walsh_moment_worst.triangularMoment_first_moment = length _permutation /\ range (from_int $k) _walsh_moment_worst.triangularMoment_first_moment _walsh_moment_worst.triangularMoment_second_moment }
  loop 3
    invariant { tri _walsh_moment_all.triangularMoment_first_moment _walsh_moment_all.triangularMoment_second_moment /\ length _walsh_moment_all.triangularMoment_first_moment = length _permutation /\ range (from_int $k) _walsh_moment_all.triangularMoment_first_moment _walsh_moment_all.triangularMoment_second_moment }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>::sample_asynchronous
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 }
  ensures { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  loop 0
    invariant { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>::sample_asynchronous_full_scan
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 }
  ensures { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  loop 0
    invariant { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit }
  loop 1
    invariant { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ is_perm _permutation }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>::sample_synchronous
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 }
  ensures { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  loop 0
    invariant { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>::sample
  fields _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode
  requires { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 /\ 0 <= _sampling_mode <= 2 }
  ensures { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode /\ is_bv bv /\ length bv = length _permutation }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>::init
  fields _function _solution _model_parameters _gibbs_sampler _permutation _something_to_log _log_norm_infinite _log_norm_1
  requires { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ sqr _model_parameters.fullMoment_first_moment _model_parameters.fullMoment_second_moment /\ length _solution.sfst = length _permutation }
  ensures { sol_ok _function _solution (length _permutation) /\ _function = old _function /\ sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ sqr _model_parameters.fullMoment_first_moment _model_parameters.fullMoment_second_moment /\ length _model_parameters.fullMoment_first_moment = length (old _model_parameters).fullMoment_first_moment /\ _permutation = old _permutation }
  raises { LastEvaluation -> true }
function hnco::algorithm::walsh_moment::BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>::iterate
  fields _functions _function _solution _population _model_parameters _gibbs_sampler _choose_bit _permutation _num_gs_steps _num_gs_cycles _sampling_mode _walsh_moment_all _walsh_moment_best _walsh_moment_worst _selection_size _learning_rate _negative_positive_selection _reset_mode
  requires { sol_ok _function _solution (length _permutation) /\ fns_ok _function _functions /\ sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation > 0 /\ _choose_bit.d_lo = 0 /\ _choose_bit.d_hi = length _permutation - 1 /\ 0 <= _sampling_mode <= 2 }
  requires { sqr _model_parameters.fullMoment_first_moment _model_parameters.fullMoment_second_moment /\ length _model_parameters.fullMoment_first_moment = length _permutation /\ sqr _walsh_moment_all.fullMoment_first_moment _walsh_moment_all.fullMoment_second_moment /\ length _walsh_moment_all.fullMoment_first_moment = length _permutation /\ sqr _walsh_moment_best.fullMoment_first_moment _walsh_moment_best.fullMoment_second_moment /\ length _walsh_moment_best.fullMoment_first_moment = length _permutation /\ sqr _walsh_moment_worst.fullMoment_first_moment _walsh_moment_worst.fullMoment_second_moment /\ length _walsh_moment_worst.fullMoment_first_moment = length _permutation }
  requires { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _permutation) /\ 0 < _selection_size <= length _population.population_bvs }
  ensures { sol_ok _function _solution (length _permutation) /\ _solution.ssnd >=. (old _solution).ssnd /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
  ensures { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _permutation) /\ pop_bv _population.population_bvs (length _permutation) /\ paired _function _population.population_bvs _population.population_values /\ topped _function _population.population_bvs _solution }
  ensures { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ sqr _model_parameters.fullMoment_first_moment _model_parameters.fullMoment_second_moment /\ length _model_parameters.fullMoment_first_moment = length _permutation /\ sqr _walsh_moment_all.fullMoment_first_moment _walsh_moment_all.fullMoment_second_moment /\ length _walsh_moment_all.fullMoment_first_moment = length _permutation /\ sqr _walsh_moment_best.fullMoment_first_moment _walsh_moment_best.fullMoment_second_moment /\ length _walsh_moment_best.fullMoment_first_moment = length _permutation /\ sqr _walsh_moment_worst.fullMoment_first_moment _walsh_moment_worst.fullMoment_second_moment /\ length _walsh_moment_worst.fullMoment_first_moment = length _permutation }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ length _population.population_bvs = length (old _population).population_bvs }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { sqr _model_parameters.fullMoment_first_moment _model_parameters.fullMoment_second_moment /\ length _model_parameters.fullMoment_first_moment = length _permutation }
    invariant { sqr _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_second_moment /\ length _gibbs_sampler.fullMomentGibbsSampler_model_parameters.fullMoment_first_moment = length _gibbs_sampler.fullMomentGibbsSampler_state = length _gibbs_sampler.fullMomentGibbsSampler_pv = length _permutation /\ is_bv _gibbs_sampler.fullMomentGibbsSampler_state /\ length _permutation = length (old _permutation) /\ _choose_bit = old _choose_bit /\ _num_gs_steps = old _num_gs_steps /\ _num_gs_cycles = old _num_gs_cycles /\ _sampling_mode = old _sampling_mode }
    invariant { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _permutation) /\ length _population.population_bvs = length (old _population).population_bvs /\ forall i. 0 <= i < $k -> is_bv _population.population_bvs[i] }
  ghost before 1 { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
  loop 1
    invariant { sqr _walsh_moment_best.fullMoment_first_moment _walsh_moment_best.fullMoment_second_moment /\ length _walsh_moment_best.fullMoment_first_moment = length _permutation /\ range (from_int $k) _walsh_moment_best.fullMoment_first_moment _walsh_moment_best.fullMoment_second_moment }
  loop 2
    invariant { sqr _walsh_moment_worst.fullMoment_first_moment _walsh_moment_worst.fullMoment_second_moment /\ length _walsh_moment_worst.fullMoment_first_moment = length _permutation /\ range (from_int $k) _walsh_moment_worst.fullMoment_first_moment _walsh_moment_worst.fullMoment_second_moment }
  loop 3
    invariant { sqr _walsh_moment_all.fullMoment_first_moment _walsh_moment_all.fullMoment_second_moment /\ length _walsh_moment_all.fullMoment_first_moment = length _permutation /\ range (from_int $k) _walsh_moment_all.fullMoment_first_moment _walsh_moment_all.fullMoment_second_moment }
