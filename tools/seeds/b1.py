L='lib/hnco/'
H='#include <cstdio>\n#include <set>\n#include "hnco/bit-vector.hh"\n#include "hnco/bit-matrix.hh"\n#include "hnco/iterator.hh"\n#include "hnco/maps/map.hh"\n#include "hnco/neighborhoods/neighborhood.hh"\n#include "hnco/neighborhoods/neighborhood-iterator.hh"\n#include "hnco/permutation.hh"\n#include "hnco/random.hh"\nusing namespace hnco; using namespace hnco::map; using namespace hnco::neighborhood;\n'
SEEDS=[
dict(id='s01-to-size-type', prop='C01', edits=[(L+'bit-vector.cc','''  std::size_t result = 0;
  std::size_t mask = 1;
  for (int i = start; i < stop; i++) {''','''  std::size_t result = 0;
  unsigned mask = 1;
  for (int i = start; i < stop; i++) {''')],
 needs='a slice of more than 32 bits with a one beyond the 32nd', breaks='conversion of a slice of a bit vector to an unsigned integer loses the high bits',
 demo=H+'int main(){ bit_vector_t x(50,0); x[45]=1; if (bv_to_size_type(x,5,50)!=(size_t(1)<<40)) return 1; return 0; }\n'),
dict(id='s02-flip-list', prop='C01', edits=[(L+'bit-vector.cc','''  for (auto index : sbv)
    bv_flip(x, index);''','''  int last = -1;
  for (auto index : sbv) {
    bv_flip(x, index);
    if (index == last + 1024)
      bv_flip(x, last);
    last = index;
  }''')], needs='two consecutive flipped indexes exactly 1024 apart', breaks='flipping by an index list flips a wrong component',
 demo=H+'int main(){ bit_vector_t x(1400,0); bv_flip(x,{3,10,1034}); return bv_hamming_weight(x)==3&&x[3]&&x[10]&&x[1034]?0:1; }\n'),
dict(id='s03-echelon-wide', prop='C02', edits=[(L+'bit-matrix.cc',"""  for (int j = 0; j < ncols; j++) {
    bool found = false;""","""  for (int j = 0; j < std::min(ncols, 4 * nrows); j++) {
    bool found = false;""")], needs='a matrix more than four times as wide as high, rank deficient in its first columns', breaks='the row echelon form, hence the rank, of very wide matrices',
 demo=H+'int main(){ bit_matrix_t A={{0,0,0,0,0,0,0,0,0,1},{0,0,0,0,0,0,0,0,0,1}}; bm_row_echelon_form(A); return bm_rank(A)==1?0:1; }\n'),
dict(id='s04-upper-triangular', prop='C02', edits=[(L+'bit-matrix.cc',"""    for (int j = 0; j < std::min(i, ncols); j++) {""","""    for (int j = 0; j < std::min(i, ncols - 1); j++) {""")], needs='a matrix with more rows than columns with a one in its last column below the diagonal', breaks='bm_is_upper_triangular accepts a matrix that is not',
 demo=H+'int main(){ bit_matrix_t A={{1,0},{0,1},{0,1}}; return bm_is_upper_triangular(A)?1:0; }\n'),
dict(id='s05-ts-commuting', prop='C03', edits=[(L+'maps/transvection.cc',"""      split = k + 1 - r;""","""      split = k - r + (t > k);""")], needs='odd dimension, a short sequence and r = k drawn', breaks='a random commuting sequence has fewer transvections than requested',
 demo=H+"""int main(){ random::Generator::set_seed(3); for(int r=0;r<2000;r++){ transvection_sequence_t ts; ts_random_commuting(ts,5,2); if(ts.size()!=2) return 1; } return 0; }
"""),
dict(id='s06-sphere-iterator', prop='C05', edits=[(L+'neighborhoods/neighborhood-iterator.cc','''  for (i--; i >= 0; i--)
    if (_bit_indexes[i] < _bit_indexes[i + 1] - 1)
      return true;''','''  for (i--; i > 0; i--)
    if (_bit_indexes[i] < _bit_indexes[i + 1] - 1)
      return true;
  if (_radius == 2 && _bit_indexes[0] < _bit_indexes[1] - 1)
    return true;''')], needs='radius at least 3', breaks='the Hamming sphere iterator stops before moving its first index',
 demo=H+'''int main(){ HammingSphereIterator it(5,3); bit_vector_t o(5,0); it.set_origin(o); it.init(); std::set<bit_vector_t> s; while(it.has_next()) s.insert(it.next()); return s.size()==10?0:1; }
'''),
dict(id='s07-bernoulli-trials', prop='C06', edits=[(L+'neighborhoods/neighborhood.cc','''    double p = double(k) / double(n);
    if (Generator::uniform() < p) {
      _flipped_bits.push_back(i);
      k--;
    }
    n--;
  }
  assert(k == 0);''','''    double p = double(k) / double(n);
    if (Generator::uniform() < p) {
      _flipped_bits.push_back(i);
      k--;
      if (k == 1 && n > 40)
        break;
    }
    n--;
  }
  assert(k <= 1);''')], needs='more than 40 bits and the last but one flip drawn early', breaks='a Hamming sphere neighbour is at distance radius - 1',
 demo=H+'''int main(){ random::Generator::set_seed(1); HammingSphere nb(64,9); bit_vector_t o(64,0); nb.set_origin(o); for(int t=0;t<20000;t++){ nb.propose(); if(nb.get_flipped_bits().size()!=9) return 1; nb.forget(); } HammingSphere n2(50,2); bit_vector_t p(50,0); return 0; }
'''),
dict(id='s08-perm-valid', prop='C18', edits=[(L+'permutation.cc',"""    if (checked[permutation[i]])
      return false;""","""    if (i + 1 < permutation.size() && checked[permutation[i]])
      return false;""")], needs='a vector whose only repeated element is the last one', breaks='perm_is_valid accepts vectors that are not permutations',
 demo=H+"""int main(){ permutation_t p={1,0,2}; permutation_t q={1,0,1}; if(!perm_is_valid(p)) return 1; return perm_is_valid(q)?2:0; }
"""),
dict(id='s09-affine-surjective', prop='C04', edits=[(L+'maps/map.cc','''bool
LinearMap::is_surjective() const
{
  bit_matrix_t M = _bm;
  bm_row_echelon_form(M);
  return bm_rank(M) == bm_num_rows(_bm);
}''','''bool
LinearMap::is_surjective() const
{
  bit_matrix_t M = _bm;
  bm_row_echelon_form(M);
  return bm_rank(M) >= std::min(bm_num_rows(_bm), bm_num_columns(_bm));
}''')], needs='a matrix with more rows than columns and full column rank', breaks='an injective, not surjective linear map reports itself surjective',
 demo=H+'''int main(){ random::Generator::set_seed(5); for(int t=0;t<200;t++){ LinearMap m; m.random(3,2,false); if(m.is_surjective()) return 1; } return 0; }
'''),
]
