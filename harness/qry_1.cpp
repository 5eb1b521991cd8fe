// plain ranges of ranges
#include "query.hpp"
using namespace std;
using VS = vector<vector<int>>;
QUERY("vector of vector of int", VS, Index, Plain<query::Index>, false, false)
QUERY("const vector of vector of int", const VS, Index, Plain<query::Index>, false, false)
QUERY("deque of list of int", deque<list<int>>, Index, Plain<query::Index>, false, false)
QUERY("vector of forward_list of int", vector<forward_list<int>>, Index, Plain<query::Index>, false, false)
QUERY("vector of set of int", vector<set<int>>, Index, Plain<query::Index>, false, true)
QUERY("vector of unordered_set of int", vector<unordered_set<int>>, Index, Plain<query::Index>, false, true)
QUERY("vector of vector of size_t", vector<vector<size_t>>, Index, Plain<query::Index>, false, false)
