// One configuration of the library per build, selected with -DVX_CFG=<number> (tools/configs.py names them).
// Node sizes are given in bytes as users give them: leaf = 8 + capacity * sizeof(element), internal = 8 + 4..5 children
// with their metadata, so that small histories already reach every shape up to several levels.
#if VX_CFG == 27 || VX_CFG == 28
#define VX_SCALE 8589934597LL
#elif VX_CFG == 30
#define VX_SCALE 0.25
#elif VX_CFG == 36
#define VX_SHIFT 2147483628LL
#endif
#include "codec.hpp"
using namespace bpptree;
using namespace bpptree::detail;
#define VX_INFO(C) static vx::Info info() { return vx::info_of<C>(); }
#ifndef VX_PAD
#define VX_PAD 0
#endif
#define HDR (8 + VX_PAD)       // room in every node besides the elements
#define IS(n) (VX_CFG == n)

#if IS(1)       // vectors of int, one element per leaf
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "vec1";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 4 * 16, DL = 7;
    using Tree = BppTree<int, LB, IB, DL>::mixins<IndexedBuilder<>>;
    static constexpr bool IDX = true, NEG = true;
    VX_INFO(C) };
#elif IS(2)     // two per leaf, other index type, sums of signed elements
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "vec2";
    static constexpr int LB = HDR + 2 * 4, IB = HDR + 4 * 16, DL = 6;
    using Tree = BppTreeVector<int>::leaf_node_bytes<LB>::size_type<uint32_t>::depth_limit<DL>::internal_node_bytes<IB>::mixins<SummedBuilder<>>;
    static constexpr bool IDX = true, SUM = true, NEG = true;
    using SZ = uint32_t; using SumT = int;
    VX_INFO(C) };
#elif IS(3)     // everything an unordered tree can have; odd capacities
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "vec3all";
    static constexpr int LB = HDR + 3 * 4, IB = HDR + 5 * (8 + 8 + 8 + 4 + 4), DL = 5;
    using Tree = BppTree<int, LB, IB, DL>::mixins<IndexedBuilder<>, SummedBuilder<CastingExtractor<long>>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool IDX = true, SUM = true, MIN = true, MAX = true, NEG = true;
    VX_INFO(C) };
#elif IS(4)     // strings
struct C : vx::Plain<std::string> {
    static constexpr char const* NAME = "vec2string";
    static constexpr int LB = HDR + 2 * sizeof(std::string), IB = HDR + 4 * 16, DL = 5;
    using Tree = BppTree<std::string, LB, IB, DL>::mixins<IndexedBuilder<>>;
    static constexpr bool IDX = true;
    static constexpr int ALC = 0;
    VX_INFO(C) };
#elif IS(5)     // no mixins at all
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "plain2";
    static constexpr int LB = HDR + 2 * 4, IB = HDR + 4 * 8, DL = 6;
    using Tree = BppTree<int, LB, IB, DL>::mixins<>;
    static constexpr bool NEG = true;
    VX_INFO(C) };
#elif IS(6)     // default node size through the helper type
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "BppTreeVector";
    using Tree = BppTreeVector<int>::disable_exceptions<false>::mixins<SummedBuilder<CastingExtractor<long>>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool IDX = true, SUM = true, MIN = true, MAX = true, NEG = true;
    static constexpr int BIG = 1500, MAXV = 9999;
    VX_INFO(C) };
#elif IS(7)     // more than 255 small elements per leaf, more than 255 children would be next
struct C : vx::Plain<int16_t> {
    static constexpr char const* NAME = "bigleaf";
    static constexpr int LB = HDR + 300 * 2, IB = HDR + 4 * 24, DL = 4;
    using Tree = BppTree<int16_t, LB, IB, DL>::mixins<SummedBuilder<CastingExtractor<long>>, IndexedBuilder<int>, MaxBuilder<>>;
    static constexpr bool IDX = true, SUM = true, MAX = true, NEG = true;
    using SZ = int;
    static constexpr int BIG = 1600;
    VX_INFO(C) };
#elif IS(8)     // maps, one element per leaf, with index
struct C : vx::PairOf<int, int> {
    static constexpr char const* NAME = "map1idx";
    static constexpr int LB = HDR + 1 * 8, IB = HDR + 4 * (8 + 8 + 8), DL = 7;
    using Tree = BppTree<std::pair<int, int>, LB, IB, DL>::mixins<OrderedBuilder<>, IndexedBuilder<>>;
    static constexpr bool ORD = true, IDX = true, MAPPED = true;
    VX_INFO(C) };
#elif IS(9)     // maps through the helper, two per leaf, sums and extremes of the mapped value, proxies by key
struct C : vx::PairOf<int, int> {
    static constexpr char const* NAME = "BppTreeMap2";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 4 + 8 + 4 + 4) + 8, DL = 6;
    using Tree = BppTreeMap<int, int>::depth_limit<DL>::internal_node_bytes<IB>::leaf_node_bytes<LB>::mixins<SummedBuilder<vx::LongOf<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ORD = true, MAPPED = true, SUM = true, MIN = true, MAX = true;
    VX_INFO(C) };
#elif IS(10)    // descending keys, binary search, three per leaf
struct C : vx::PairOf<int, int> {
    static constexpr char const* NAME = "map3desc";
    static constexpr int LB = HDR + 3 * 8, IB = HDR + 5 * (8 + 4), DL = 5;
    using Tree = BppTree<std::pair<int, int>, LB, IB, DL>::mixins<OrderedBuilder<>::compare<MaxComparator>::binary_search<true>::extractor<PairExtractor<0>>>;
    static constexpr bool ORD = true, MAPPED = true;
    static constexpr int KDIR = -1;
    VX_INFO(C) };
#elif IS(11)    // tuples, sum of both fields, extremes of the key; mixins in another order
struct C : vx::TupleOf<int, int> {
    static constexpr char const* NAME = "tuple2";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 4 + 8 + 4 + 4), DL = 6;
    using Tree = BppTree<std::tuple<int, int>, LB, IB, DL>::mixins<MaxBuilder<>::extractor<TupleExtractor<0>>::compare<MaxComparator>, SummedBuilder<vx::KeyPlusValue>, MinBuilder<>::compare<MaxComparator>::extractor<TupleExtractor<1>>, OrderedBuilder<TupleExtractor<0>>>;
    static constexpr bool ORD = true, MAPPED = true, SUM = true, MIN = true, MAX = true;
    static constexpr char const *SUMF = "s", *MINF = "v", *MAXF = "k";
    static constexpr int MINDIR = -1;
    using SumT = int;
    VX_INFO(C) };
#elif IS(12)    // the second of the pair is the key
struct C : vx::PairOf<int, int, 1000, true> {
    static constexpr char const* NAME = "mapflip";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 4 + 8), DL = 6;
    using Tree = BppTree<std::pair<int, int>, LB, IB, DL>::mixins<IndexedBuilder<int64_t>, OrderedBuilder<PairExtractor<1>>>;
    static constexpr bool ORD = true, IDX = true, MAPPED = true;
    using SZ = int64_t;
    VX_INFO(C) };
#elif IS(13)    // string keys and values
struct C : vx::PairOf<std::string, std::string> {
    static constexpr char const* NAME = "mapstring";
    static constexpr int LB = HDR + 2 * 64, IB = HDR + 4 * (8 + 32), DL = 5;
    using Tree = BppTreeMap<std::string, std::string, MaxComparator>::binary_search<true>::leaf_node_bytes<LB>::compare<MinComparator>::internal_node_bytes<IB>::depth_limit<DL>::mixins<>;
    static constexpr bool ORD = true, MAPPED = true;
    static constexpr int ALC = 0;
    VX_INFO(C) };
#elif IS(14)    // sets, one per leaf, with index
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "set1idx";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 4 * (8 + 4 + 8), DL = 7;
    using Tree = BppTreeSet<int, MinComparator, false, LB, IB, DL>::mixins<IndexedBuilder<>>;
    static constexpr bool ORD = true, IDX = true;
    VX_INFO(C) };
#elif IS(15)    // descending sets of 64-bit keys, binary search, extremes
struct C : vx::Plain<long> {
    static constexpr char const* NAME = "set2desc";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 5 * (8 + 8 + 8 + 8 + 8), DL = 6;
    using Tree = BppTreeSet<long>::leaf_node_bytes<LB>::compare<MaxComparator>::depth_limit<DL>::disable_exceptions<true>::binary_search<true>::disable_exceptions<false>::internal_node_bytes<IB>::mixins<MinBuilder<>, SummedBuilder<>, MaxBuilder<>>;
    static constexpr bool ORD = true, SUM = true, MIN = true, MAX = true;
    static constexpr int KDIR = -1;
    VX_INFO(C) };
#elif IS(16)    // default map
struct C : vx::PairOf<int, int> {
    static constexpr char const* NAME = "BppTreeMap";
    using Tree = BppTreeMap<int, int>::mixins<IndexedBuilder<uint32_t>, SummedBuilder<vx::LongOf<1>>>;
    static constexpr bool ORD = true, MAPPED = true, IDX = true, SUM = true;
    static constexpr int BIG = 700, MAXK = 80000;
    using SZ = uint32_t;
    VX_INFO(C) };
#elif IS(17)    // default set
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "BppTreeSet";
    using Tree = BppTreeSet<int>::binary_search<true>::disable_exceptions<false>::mixins<>;
    static constexpr bool ORD = true;
    static constexpr int BIG = 900, MAXK = 80000;
    VX_INFO(C) };
#elif IS(18)    // 10 - element summed, greatest element as "minimum" and the other way round
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "vecodd";
    static constexpr int LB = HDR + 2 * 4, IB = HDR + 4 * (8 + 4 + 4 + 4) + 4, DL = 6;
    using Tree = BppTree<int, LB, IB, DL>::mixins<MinBuilder<>::compare<MaxComparator>, SummedBuilder<vx::TenMinus>, MaxBuilder<vx::TenMinus>>;
    static constexpr bool SUM = true, MIN = true, MAX = true, NEG = true;
    static constexpr char const *SUMF = "t", *MAXF = "t";
    static constexpr int MINDIR = -1;
    using SumT = int;
    VX_INFO(C) };
#elif IS(19)    // pairs that are not ordered: sums and extremes of a component
struct C : vx::PairOf<int, int> {
    static constexpr char const* NAME = "pairs";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 8 + 4 + 4 + 4) + 4, DL = 6;
    using Tree = BppTree<std::pair<int, int>, LB, IB, DL>::mixins<SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>::extractor<PairExtractor<0>>, MaxBuilder<>::compare<MaxComparator>::extractor<PairExtractor<1>>, IndexedBuilder<>>;
    static constexpr bool SUM = true, MIN = true, MAX = true, IDX = true, ARITH = false;
    static constexpr char const* MINF = "k";
    using SumT = int;
    VX_INFO(C) };
#elif IS(20)    // exceptions disabled, one element per leaf, unsigned elements
struct C : vx::Plain<unsigned> {
    static constexpr char const* NAME = "noexc";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 5 * 20, DL = 5;
    using Tree = BppTree<unsigned, LB, IB, DL, true>::mixins<MaxBuilder<>, IndexedBuilder<>, MinBuilder<>>;
    static constexpr bool IDX = true, MIN = true, MAX = true;
    VX_INFO(C) };
#elif IS(21)    // wide internal nodes over tiny leaves
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "wide";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 11 * 24, DL = 4;
    using Tree = BppTree<int, LB, IB, DL>::mixins<SummedBuilder<CastingExtractor<long>>, IndexedBuilder<>>;
    static constexpr bool IDX = true, SUM = true, NEG = true;
    static constexpr int BIG = 60;
    VX_INFO(C) };
#elif IS(22)    // more than 255 children per internal node
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "wide300";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 300 * 16, DL = 3;
    using Tree = BppTree<int, LB, IB, DL>::mixins<IndexedBuilder<>>;
    static constexpr bool IDX = true, NEG = true;
    static constexpr int BIG = 700;
    VX_INFO(C) };
#elif IS(23)    // a number type whose operators are templates
struct C : vx::Plain<vx::Box<int>> {
    static constexpr char const* NAME = "vecbox";
    static constexpr int LB = HDR + 2 * 4, IB = HDR + 4 * 16, DL = 6;
    using Tree = BppTree<vx::Box<int>, LB, IB, DL>::mixins<IndexedBuilder<>>;
    static constexpr bool IDX = true, NEG = true;
    VX_INFO(C) };
#elif IS(24)    // the same as mapped value
struct C : vx::PairOf<int, vx::Box<int>> {
    static constexpr char const* NAME = "mapbox";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 4), DL = 6;
    using Tree = BppTreeMap<int, vx::Box<int>, MinComparator, false, LB, IB, DL>::mixins<>;
    static constexpr bool ORD = true, MAPPED = true;
    VX_INFO(C) };
#elif IS(25)    // so small that the greatest depth is soon reached
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "tiny";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 4 * 16, DL = 3;
    using Tree = BppTree<int, LB, IB, DL>::mixins<IndexedBuilder<>>;
    static constexpr bool IDX = true;
    VX_INFO(C) };
#elif IS(26)
struct C : vx::PairOf<int, int> {
    static constexpr char const* NAME = "tinymap";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * 24 + 8, DL = 2;
    using Tree = BppTree<std::pair<int, int>, LB, IB, DL>::mixins<OrderedBuilder<>, SummedBuilder<PairExtractor<1>>>;
    static constexpr bool ORD = true, MAPPED = true, SUM = true;
    using SumT = int;
    VX_INFO(C) };
#elif IS(27)    // numbers that do not fit into 32 bits
struct C : vx::Plain<int64_t> {
    static constexpr char const* NAME = "vec64";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 2 + 8 + 8 + 8) + 8, DL = 6;
    using Tree = BppTree<int64_t, LB, IB, DL>::mixins<IndexedBuilder<int16_t>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool IDX = true, SUM = true, MIN = true, MAX = true, NEG = true;
    using SZ = int16_t; using SumT = int64_t;
    VX_INFO(C) };
#elif IS(28)
struct C : vx::PairOf<int64_t, int64_t> {
    static constexpr char const* NAME = "map64";
    static constexpr int LB = HDR + 2 * 16, IB = HDR + 4 * (8 + 8 + 8 + 8 + 8), DL = 6;
    using Tree = BppTreeMap<int64_t, int64_t, MinComparator, true, LB, IB, DL>::mixins<MaxBuilder<PairExtractor<0>>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>>;
    static constexpr bool ORD = true, MAPPED = true, SUM = true, MIN = true, MAX = true;
    static constexpr char const* MAXF = "k";
    using SumT = int64_t;
    VX_INFO(C) };
#elif IS(29)    // so deep that positions need more than 32 bits
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "deep";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 4 * (8 + 8 + 4), DL = 14;
    using Tree = BppTree<int, LB, IB, DL>::mixins<IndexedBuilder<>, SummedBuilder<>>;
    static constexpr bool IDX = true, SUM = true, NEG = true;
    static constexpr int BIG = 5000;
    using SumT = int;
    VX_INFO(C) };
#elif IS(30)    // fractions
struct C : vx::Plain<double> {
    static constexpr char const* NAME = "vecdouble";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 8 + 8 + 8), DL = 6;
    using Tree = BppTree<double, LB, IB, DL>::mixins<SummedBuilder<>, MaxBuilder<>, MinBuilder<>>;
    static constexpr bool SUM = true, MIN = true, MAX = true, NEG = true;
    using SumT = double;
    VX_INFO(C) };
#elif IS(37)    // deeper than positions permit: 1 + 21 * 3 bits
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "limit64";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 4 * 16, DL = 40;
    using Tree = BppTreeVector<int, uint32_t, LB, IB, 5>::depth_limit<DL>::mixins<>;
    static constexpr bool IDX = true, NEG = true;
    using SZ = uint32_t;
    VX_INFO(C) };
#elif IS(38)    // deeper than positions permit: 2 + 20 * 3 bits, with two to spare
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "limit62";
    static constexpr int LB = HDR + 3 * 4, IB = HDR + 4 * 16, DL = 23;
    using Tree = BppTreeSet<int, MinComparator, true, LB, IB, 5>::depth_limit<DL>::mixins<SummedBuilder<>>;
    static constexpr bool ORD = true, SUM = true;
    using SumT = int;
    VX_INFO(C) };
#elif IS(39)    // sets whose comparator looks at the tens only: elements that differ may be the same key
struct C : vx::Tens {
    static constexpr char const* NAME = "tens";
    static constexpr int LB = HDR + 2 * 4, IB = HDR + 4 * (8 + 4 + 4 + 8), DL = 6;
    using Tree = BppTreeSet<int, vx::TensLess>::binary_search<true>::leaf_node_bytes<LB>::internal_node_bytes<IB>::depth_limit<DL>::mixins<MaxBuilder<>, SummedBuilder<>>;
    static constexpr bool SUM = true, MAX = true;
    using SumT = int;
    VX_INFO(C) };
#elif IS(40)    // the same downwards, with linear search and an index
struct C : vx::Tens {
    static constexpr char const* NAME = "tensdesc";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 4 * (8 + 4 + 4 + 8), DL = 7;
    using Tree = BppTree<int, LB, IB, DL>::mixins<MinBuilder<>, IndexedBuilder<>, OrderedBuilder<>::extractor<ValueExtractor>::compare<vx::TensGreater>>;
    static constexpr bool IDX = true, MIN = true;
    static constexpr int KDIR = -1;
    VX_INFO(C) };
#elif IS(41)    // keys that are pointers
struct C : vx::Plain<vx::Ptr> {
    static constexpr char const* NAME = "setptr";
    static constexpr int LB = HDR + 4 * 8, IB = HDR + 5 * (8 + 8), DL = 5;
    using Tree = BppTreeSet<vx::Ptr>::internal_node_bytes<IB>::depth_limit<DL>::leaf_node_bytes<LB>::mixins<>;
    static constexpr bool ORD = true;
    static constexpr int BIG = 90, MAXK = 200;
    VX_INFO(C) };
#elif IS(42)    // five per leaf, six children
struct C : vx::Plain<int> {
    static constexpr char const* NAME = "vec5";
    static constexpr int LB = HDR + 5 * 4, IB = HDR + 6 * (8 + 8 + 8), DL = 5;
    using Tree = BppTree<int, LB, IB, DL>::mixins<SummedBuilder<CastingExtractor<long>>, IndexedBuilder<>>;
    static constexpr bool IDX = true, SUM = true, NEG = true;
    static constexpr int BIG = 120;
    VX_INFO(C) };
#elif IS(43)    // four per leaf, seven children
struct C : vx::PairOf<int, int> {
    static constexpr char const* NAME = "map4";
    static constexpr int LB = HDR + 4 * 8, IB = HDR + 7 * (8 + 4 + 4), DL = 5;
    using Tree = BppTreeMap<int, int>::internal_node_bytes<IB>::depth_limit<DL>::leaf_node_bytes<LB>::mixins<MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ORD = true, MAPPED = true, MAX = true;
    static constexpr int BIG = 120, MAXK = 300;
    VX_INFO(C) };
#elif IS(44)    // the same with tracked objects
struct C : vx::Plain<vx::Tr> {
    static constexpr char const* NAME = "trvec5";
    static constexpr int LB = HDR + 5 * 4, IB = HDR + 6 * (8 + 8 + 4) + 8, DL = 5;
    using Tree = BppTree<vx::Tr, LB, IB, DL>::mixins<MinBuilder<>, IndexedBuilder<>>;
    static constexpr bool IDX = true, MIN = true, NEG = true;
    static constexpr int BIG = 90;
    VX_INFO(C) };
#elif IS(45)    // sums of an unsigned type, one element per leaf
struct C : vx::PairOf<int, unsigned> {
    static constexpr char const* NAME = "mapusum";
    static constexpr int LB = HDR + 1 * 8, IB = HDR + 4 * (8 + 4 + 4) + 8, DL = 7;
    using Tree = BppTreeMap<int, unsigned, MinComparator, false, LB, IB, DL>::mixins<SummedBuilder<PairExtractor<1>>>;
    static constexpr bool ORD = true, MAPPED = true, SUM = true;
    using SumT = unsigned;
    VX_INFO(C) };
#elif IS(46)    // tuples of three with the key at the end
struct C : vx::Triple {
    static constexpr char const* NAME = "triple";
    static constexpr int LB = HDR + 2 * 12, IB = HDR + 4 * (8 + 4 + 8 + 4), DL = 6;
    using Tree = BppTree<std::tuple<short, int, int>, LB, IB, DL>::mixins<MinBuilder<TupleExtractor<0>>, OrderedBuilder<>::extractor<TupleExtractor<2>>::binary_search<true>, IndexedBuilder<>>;
    static constexpr bool IDX = true, MIN = true;
    VX_INFO(C) };
#elif IS(47)    // elements that own what their keys point to
struct C : vx::Owned {
    static constexpr char const* NAME = "owned";
    static constexpr int LB = HDR + 2 * 16, IB = HDR + 4 * (8 + 8 + 4 + 4), DL = 6;
    using Tree = BppTree<vx::Own, LB, IB, DL>::mixins<OrderedBuilder<vx::OwnKey, vx::OwnLess>, SummedBuilder<vx::OwnValue>, MaxBuilder<vx::OwnValue>>;
    static constexpr bool SUM = true, MAX = true;
    using SumT = int;
    VX_INFO(C) };
#elif IS(36)    // unsigned numbers around 2^31
struct C : vx::Plain<uint32_t> {
    static constexpr char const* NAME = "setu32";
    static constexpr int LB = HDR + 2 * 4, IB = HDR + 4 * (8 + 4 + 2 + 4 + 4) + 8, DL = 6;
    using Tree = BppTreeSet<uint32_t, MinComparator, false, LB, IB, DL>::mixins<MinBuilder<>, IndexedBuilder<uint16_t>, MaxBuilder<>>;
    static constexpr bool ORD = true, IDX = true, MIN = true, MAX = true;
    using SZ = uint16_t;
    VX_INFO(C) };
#elif IS(31)    // tracked objects: lifetimes of elements and of copies kept as metadata
struct C : vx::Plain<vx::Tr> {
    static constexpr char const* NAME = "trvec3";
    static constexpr int LB = HDR + 3 * 4, IB = HDR + 5 * (8 + 8 + 4 + 4 + 4), DL = 5;
    using Tree = BppTree<vx::Tr, LB, IB, DL>::mixins<IndexedBuilder<>, SummedBuilder<vx::TrSum>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool IDX = true, SUM = true, MIN = true, MAX = true, NEG = true;
    using SumT = int;
    VX_INFO(C) };
#elif IS(32)
struct C : vx::Plain<vx::Tr> {
    static constexpr char const* NAME = "trvec1";
    static constexpr int LB = HDR + 1 * 4, IB = HDR + 4 * 16 + 8, DL = 6;
    using Tree = BppTree<vx::Tr, LB, IB, DL>::mixins<MaxBuilder<>>;
    static constexpr bool NEG = true, MAX = true;
    VX_INFO(C) };
#elif IS(33)
struct C : vx::PairOf<vx::Tr, vx::Tr> {
    static constexpr char const* NAME = "trmap2";
    static constexpr int LB = HDR + 2 * 8, IB = HDR + 4 * (8 + 4 + 4) + 8, DL = 6;
    using Tree = BppTreeMap<vx::Tr, vx::Tr, MinComparator, false, LB, IB, DL>::mixins<MinBuilder<PairExtractor<1>>>;
    static constexpr bool ORD = true, MAPPED = true, MIN = true;
    VX_INFO(C) };
#elif IS(34)
struct C : vx::Plain<vx::Tr> {
    static constexpr char const* NAME = "trset2";
    static constexpr int LB = HDR + 2 * 4, IB = HDR + 4 * 24, DL = 6;
    using Tree = BppTreeSet<vx::Tr, MaxComparator, true, LB, IB, DL>::mixins<IndexedBuilder<>, MaxBuilder<>>;
    static constexpr bool ORD = true, IDX = true, MAX = true;
    static constexpr int KDIR = -1;
    VX_INFO(C) };
#elif IS(35)
struct C : vx::TupleOf<vx::Tr, vx::Tr> {
    static constexpr char const* NAME = "trtuple3";
    static constexpr int LB = HDR + 3 * 8, IB = HDR + 4 * (8 + 4 + 4) + 8, DL = 5;
    using Tree = BppTree<std::tuple<vx::Tr, vx::Tr>, LB, IB, DL>::mixins<OrderedBuilder<TupleExtractor<0>>, MaxBuilder<TupleExtractor<1>>>;
    static constexpr bool ORD = true, MAPPED = true, MAX = true;
    VX_INFO(C) };
#endif
VX_CONFIG(C)
