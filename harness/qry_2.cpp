// plain ranges of ranges with weighted edges
#include "query.hpp"
using namespace std;
struct OwnEdge { // an edge type of the caller's
  int to = 0, weight = 0;
  int target_id() const { return to; }
};
using VVP_ = vector<vector<pair<int, int>>>;
QUERY("vector of vector of pair", VVP_, Index, Plain<query::Index>, true, false)
QUERY("const vector of vector of pair", const VVP_, Index, Plain<query::Index>, true, false)
using VDT = vector<deque<tuple<int, int>>>;
QUERY("vector of deque of 2-tuple", VDT, Index, Plain<query::Index>, true, false)
using VLT = vector<list<tuple<int, int, int>>>;
QUERY("vector of list of 3-tuple", VLT, Index, Plain<query::Index>, true, false)
using DVT = deque<vector<tuple<int, int, int>>>;
QUERY("deque of vector of 3-tuple", DVT, Index, Plain<query::Index>, true, false)
QUERY("const deque of vector of 3-tuple", const DVT, Index, Plain<query::Index>, true, false)
using VT1 = vector<vector<tuple<int>>>;
QUERY("vector of vector of 1-tuple", VT1, Index, Plain<query::Index>, false, false)
using VM = vector<map<int, int>>;
QUERY("vector of map", VM, Index, Plain<query::Index>, true, true)
QUERY("const vector of map", const VM, Index, Plain<query::Index>, true, true)
using VUM = vector<unordered_map<int, int>>;
QUERY("vector of unordered_map", VUM, Index, Plain<query::Index>, true, true)
using VFP = vector<forward_list<pair<int, int>>>;
QUERY("vector of forward_list of pair", VFP, Index, Plain<query::Index>, true, false)
using VO = vector<vector<OwnEdge>>;
QUERY("vector of vector of a struct", VO, Index, Plain<query::Index>, true, false)
