# Saving and loading: round trips
use cpp.Pow2 bits.Bits gf2.Gf2 cpp.Shuffle cpp.Perm
import transvection
record Output
record Input
define {
  predicate fresh_out (o: output) = length o.output_kinds = 0 /\ length o.output_is = 0 /\ length o.output_rs = 0 /\ length o.output_ivs = 0 /\ length o.output_rvs = 0 /\ length o.output_bvs = 0 /\
    length o.output_ims = 0 /\ length o.output_rms = 0 /\ length o.output_bms = 0 /\ length o.output_wts = 0 /\ length o.output_tss = 0 /\ length o.output_fvs = 0
  predicate fresh_in (i: input) = i.input_pos = 0 /\ i.input_i = 0 /\ i.input_r = 0 /\ i.input_iv = 0 /\ i.input_rv = 0 /\ i.input_bv = 0 /\ i.input_im = 0 /\ i.input_rm = 0 /\ i.input_bm = 0 /\ i.input_wt = 0 /\ i.input_ts = 0 /\ i.input_fv = 0
}
file @specs/tu/serialization.cc
function hnco::client::trip_Translation
  requires { fresh_out o /\ fresh_in i }
  requires { is_bv f.translation_bv }
  ensures { g.translation_bv = f.translation_bv }
function hnco::client::trip_Permutation
  requires { fresh_out o /\ fresh_in i }
  requires { is_perm f.permutation_permutation }
  ensures { g.permutation_permutation = f.permutation_permutation }
function hnco::client::trip_LinearMap
  requires { fresh_out o /\ fresh_in i }
  requires { valid_mat f.linearMap_bm }
  ensures { g.linearMap_bm = f.linearMap_bm }
function hnco::client::trip_AffineMap
  requires { fresh_out o /\ fresh_in i }
  requires { valid_mat f.affineMap_bm /\ is_bv f.affineMap_bv /\ length f.affineMap_bv = length f.affineMap_bm }
  ensures { g.affineMap_bm = f.affineMap_bm /\ g.affineMap_bv = f.affineMap_bv }
function hnco::client::trip_TsAffineMap
  requires { fresh_out o /\ fresh_in i }
  requires { is_bv f.tsAffineMap_bv /\ tsv f.tsAffineMap_ts (length f.tsAffineMap_bv) }
  ensures { g.tsAffineMap_ts = f.tsAffineMap_ts /\ g.tsAffineMap_bv = f.tsAffineMap_bv }
function hnco::client::trip_Transvection
  requires { fresh_out o /\ fresh_in i }
  requires { tv_ok f.transvection_row_index f.transvection_column_index }
  ensures { g.transvection_row_index = f.transvection_row_index /\ g.transvection_column_index = f.transvection_column_index }
function hnco::client::trip_NearestNeighborIsingModel1
  requires { fresh_out o /\ fresh_in i }
  ensures { g.nearestNeighborIsingModel1_coupling = f.nearestNeighborIsingModel1_coupling /\ g.nearestNeighborIsingModel1_field = f.nearestNeighborIsingModel1_field /\ g.nearestNeighborIsingModel1_periodic_boundary_conditions = f.nearestNeighborIsingModel1_periodic_boundary_conditions }
  ensures { length g.nearestNeighborIsingModel1_flipped_bits = length f.nearestNeighborIsingModel1_coupling }
  ensures { forall k. 0 <= k < length g.nearestNeighborIsingModel1_flipped_bits -> g.nearestNeighborIsingModel1_flipped_bits[k] = 0 }
function hnco::client::trip_NearestNeighborIsingModel2
  requires { fresh_out o /\ fresh_in i }
  requires { 0 < length f.nearestNeighborIsingModel2_field }
  ensures { g.nearestNeighborIsingModel2_coupling_right = f.nearestNeighborIsingModel2_coupling_right /\ g.nearestNeighborIsingModel2_coupling_below = f.nearestNeighborIsingModel2_coupling_below /\ g.nearestNeighborIsingModel2_field = f.nearestNeighborIsingModel2_field /\ g.nearestNeighborIsingModel2_periodic_boundary_conditions = f.nearestNeighborIsingModel2_periodic_boundary_conditions }
  ensures { length g.nearestNeighborIsingModel2_flipped_bits = length f.nearestNeighborIsingModel2_field * length f.nearestNeighborIsingModel2_field[0] }
  ensures { forall k. 0 <= k < length g.nearestNeighborIsingModel2_flipped_bits -> g.nearestNeighborIsingModel2_flipped_bits[k] = 0 }
function hnco::client::trip_LinearFunction
  requires { fresh_out o /\ fresh_in i }
  ensures { g.linearFunction_weights = (old f).linearFunction_weights }
  ensures { f.linearFunction_weights = (old f).linearFunction_weights }
function hnco::client::trip_NkLandscape
  requires { fresh_out o /\ fresh_in i }
  ensures { g.nkLandscape_neighbors = (old f).nkLandscape_neighbors /\ g.nkLandscape_partial_functions = (old f).nkLandscape_partial_functions }
  ensures { f.nkLandscape_neighbors = (old f).nkLandscape_neighbors /\ f.nkLandscape_partial_functions = (old f).nkLandscape_partial_functions }
function hnco::client::trip_EqualProducts
  requires { fresh_out o /\ fresh_in i }
  ensures { g.equalProducts_numbers = (old f).equalProducts_numbers }
  ensures { f.equalProducts_numbers = (old f).equalProducts_numbers }
function hnco::client::trip_Partition
  requires { fresh_out o /\ fresh_in i }
  ensures { g.partition_numbers = (old f).partition_numbers }
  ensures { f.partition_numbers = (old f).partition_numbers }
function hnco::client::trip_WalshExpansion
  requires { fresh_out o /\ fresh_in i }
  ensures { g.walshExpansion_terms = (old f).walshExpansion_terms }
  ensures { f.walshExpansion_terms = (old f).walshExpansion_terms }
function hnco::client::trip_WalshExpansion1
  requires { fresh_out o /\ fresh_in i }
  ensures { g.walshExpansion1_linear = (old f).walshExpansion1_linear }
  ensures { f.walshExpansion1_linear = (old f).walshExpansion1_linear }
function hnco::client::trip_WalshExpansion2
  requires { fresh_out o /\ fresh_in i }
  ensures { g.walshExpansion2_linear = (old f).walshExpansion2_linear /\ g.walshExpansion2_quadratic = (old f).walshExpansion2_quadratic }
  ensures { f.walshExpansion2_linear = (old f).walshExpansion2_linear /\ f.walshExpansion2_quadratic = (old f).walshExpansion2_quadratic }
function hnco::client::trip_WalshTerm
  requires { fresh_out o /\ fresh_in i }
  ensures { g.walshTerm_feature = (old f).walshTerm_feature /\ g.walshTerm_coefficient = (old f).walshTerm_coefficient }
  ensures { f.walshTerm_feature = (old f).walshTerm_feature /\ f.walshTerm_coefficient = (old f).walshTerm_coefficient }
