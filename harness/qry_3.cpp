// associative containers of vertices
#include "query.hpp"
using namespace std;
using MV = map<int, vector<int>>;
QUERY("map of vector of int", MV, Sparse, Plain<query::Sparse>, false, false)
QUERY("const map of vector of int", const MV, Sparse, Plain<query::Sparse>, false, false)
using MVP = map<uint32_t, vector<pair<uint32_t, int>>>;
QUERY("map of vector of pair", MVP, Sparse, Plain<query::Sparse>, true, false)
QUERY("const map of vector of pair", const MVP, Sparse, Plain<query::Sparse>, true, false)
using MLT = map<int, list<tuple<int, int, int>>>;
QUERY("map of list of 3-tuple", MLT, Sparse, Plain<query::Sparse>, true, false)
using MSP = map<string, vector<pair<string, int>>>;
QUERY("string map of vector of pair", MSP, Sparse, Plain<query::Sparse>, true, false)
using MSS = map<string, set<string>>;
QUERY("string map of set", MSS, Sparse, Plain<query::Sparse>, false, true)
using MM = map<int, map<int, int>>;
QUERY("map of map", MM, Sparse, Plain<query::Sparse>, true, true)
using MMS = map<string, map<string, int>>;
QUERY("string map of map", MMS, Sparse, Plain<query::Sparse>, true, true)
using MLL = map<long long, vector<long long>>;
QUERY("long map of vector of long", MLL, Sparse, Plain<query::Sparse>, false, false)
using MUP = map<uint64_t, list<pair<uint64_t, int>>>;
QUERY("long map of list of pair", MUP, Sparse, Plain<query::Sparse>, true, false)
using MDT = map<int64_t, deque<tuple<int64_t, int>>>;
QUERY("const long map of deque of 2-tuple", const MDT, Sparse, Plain<query::Sparse>, true, false)
using MLS = map<int64_t, set<int64_t>>;
QUERY("long map of set", MLS, Sparse, Plain<query::Sparse>, false, true)
