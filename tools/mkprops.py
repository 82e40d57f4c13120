#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids/anchors stay consistent)."""
import json, os
B = "include/boost/icl/"
P = []
def prop(id, title, statement, qtext, why, files, mech, state=None, observe=None, over=("inputs", "histories", "configurations")):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=[B+f for f in files],
            mechanism=[dict(name=n, where=B+w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=B+w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))

ITV = ["concept/interval.hpp", "interval_bounds.hpp", "concept/interval_bounds.hpp", "discrete_interval.hpp", "continuous_interval.hpp",
       "right_open_interval.hpp", "left_open_interval.hpp", "closed_interval.hpp", "open_interval.hpp"]
ANYC = "every reachable container state (any history of operations), every operand and every interval/domain/compare configuration"

prop("I01", "Intervals contain exactly the points their two bounds describe",
 "An interval built from two domain values and bound kinds (by its constructors, by the open/closed/left-open/right-open/singleton factories, or by spanning two values or two intervals) contains exactly the domain values that those bounds describe, for all six interval types and every domain. Its reported lower and upper bound, bound kinds, first and last element and emptiness agree with that set of values, and an interval that describes no value is empty.",
 "all pairs of bound values (also reversed and equal), all bound kinds, all interval types, domain types and both domain orders",
 "the tests construct a few dozen fixed intervals per type; the statement is over every pair of bounds, empty and one-element shapes and every domain type",
 ITV+["interval.hpp","dynamic_interval_traits.hpp","interval_traits.hpp","gregorian.hpp","ptime.hpp","rational.hpp"],
 [("construct / hull of two values / singleton / unit_trail","concept/interval.hpp"),("is_empty, first, last, contains(element)","concept/interval.hpp"),("static and dynamic interval factories","interval.hpp")],
 observe=["contains(interval, value)","lower","upper","bounds","first","last","is_empty"], over=("inputs","configurations"))
prop("I02", "Interval comparisons agree with the intervals' sets of values",
 "For any two intervals of one type, containment, intersection and disjointness are those of the sets of values they contain; two intervals are equal exactly when both are empty or they contain the same values; on non-empty intervals less-than is the strict order by begin, then by end. For non-empty intervals the strictly-before relation holds exactly when every value of one is below every value of the other, two intervals touch exactly when one ends directly where the other begins without gap or overlap, and the comparisons of lower or upper bounds order the ends of the value sets.",
 "all ordered pairs of intervals (including empty ones) of every interval type and domain",
 "relations between two intervals depend on all combinations of four bound kinds and relative positions; tests list selected pairs",
 ITV+["detail/exclusive_less_than.hpp"],
 [("lower_less, lower_equal, lower_less_equal, upper_*","concept/interval.hpp"),("operator==, operator<, contains, within, intersects, disjoint","concept/interval.hpp"),("exclusive_less, touches","concept/interval.hpp")],
 observe=["==","!=","<","contains","within","intersects","disjoint","touches","exclusive_less"], over=("inputs","configurations"))
prop("I03", "Interval arithmetic yields exactly the intended set of values",
 "The intersection of two intervals contains exactly the common values; the hull of two non-empty intervals is the smallest interval containing both, and an empty operand is neutral. Subtracting an interval on the left (right) removes every value up to the end (from the begin) of the subtrahend and keeps the rest, leaving the minuend unchanged when they are disjoint on that side; the inner complement of two intervals contains exactly the values strictly between them.",
 "all ordered pairs of intervals of every interval type and domain, static and dynamic bounds",
 "bound propagation differs per pair of bound kinds and per relative position; the tests use a few pairs",
 ITV, [("operator&, hull, left_subtract, right_subtract, inner_complement, between, distance","concept/interval.hpp"),("bound propagation","concept/interval_bounds.hpp"),("dynamic_interval_traits::construct_bounded","discrete_interval.hpp")],
 observe=["operator &","hull","left_subtract","right_subtract","inner_complement","between"], over=("inputs","configurations"))
prop("I04", "Interval size, cardinality, length and distance measure the value set",
 "For discrete domains the cardinality and the size of an interval are the number of values it contains and its length is that number measured as a domain difference; for continuous domains the cardinality is zero for an empty interval, one for a single value and infinite otherwise, and the length is the difference of its bounds. The distance between two intervals is the size of the gap strictly between them and zero if there is none.",
 "all intervals and pairs of intervals on the grid, for discrete and continuous domains, static and dynamic bounds, both domain orders",
 "tests check selected intervals; open/closed ends change every count by one",
 ITV+["type_traits/size.hpp","type_traits/difference.hpp","type_traits/infinity.hpp"],
 [("cardinality, size, length, distance, iterative_size","concept/interval.hpp")],
 observe=["cardinality","size","length","distance"], over=("inputs","configurations"))

SETF = ["interval_base_set.hpp","interval_set.hpp","separate_interval_set.hpp","split_interval_set.hpp","detail/interval_set_algo.hpp","concept/interval_set.hpp","concept/interval_associator.hpp"]
SST = [("stored segments","ordered std::set of disjoint non-empty intervals under exclusive_less","interval_base_set.hpp")]
prop("S01", "Adding to an interval set yields exactly the set union",
 "After adding or inserting a value or an interval (member or free function, operator, with or without position hint, empty operands included), an interval set of any kind contains exactly the values it contained before plus the values added. No value is lost or invented, whatever segments the set consisted of.",
 ANYC, "tests add to a few hand-made sets; the merge logic depends on which neighbours touch or overlap on each side and on the history that produced the segments",
 SETF, [("add / _add / add_over / handle_neighbours","interval_set.hpp"),("add_over","separate_interval_set.hpp"),("add_over, add_segment, add_rear","split_interval_set.hpp"),("join_left/join_right/join_neighbours","detail/interval_set_algo.hpp")], SST, ["iteration","contains","+=","|=","add","insert"])
prop("S02", "Subtracting from an interval set yields exactly the set difference",
 "After subtracting or erasing a value or an interval, an interval set of any kind contains exactly the values it contained before that are not in the operand. Erasing through an iterator or an iterator range removes exactly the segments designated.",
 ANYC, "removal cuts the first and last touched segment on open or closed ends and erases those between; tests try a few",
 SETF, [("subtract, erase","interval_base_set.hpp"),("left_subtract/right_subtract residuals","concept/interval.hpp")], SST, ["iteration","contains","-=","subtract","erase"])
prop("S03", "Intersection and symmetric difference with a value or interval are exact",
 "Intersecting an interval set of any kind with a value or an interval leaves exactly the common values, and taking the symmetric difference with a value or an interval leaves exactly the values contained in one of both but not in the other. The in-place and the infix operators and the free functions all agree.",
 ANYC, "flip and intersection walk several segments with three-way cuts at both operand ends; tests sample few of those configurations",
 SETF, [("add_intersection, flip","concept/interval_set.hpp"),("operator &=, &, ^=, ^","concept/interval_associator.hpp")], SST, ["&=","&","^=","^","flip"])
prop("S04", "Set algebra between interval sets is exact for all kinds of sets",
 "Union, difference, intersection and symmetric difference of two interval sets, in place or infix, for equal or different segmentation kinds on both sides and for moved or copied operands, contain exactly the values that the operation on the two value sets yields. The right operand of an in-place operator and both operands of an infix operator are left unchanged unless moved from.",
 "all pairs of reachable states of all combinations of set kinds, interval types and domains", "needs the cross product of two arbitrary segmentations; tests use single examples",
 SETF, [("operators += -= &= ^= and infix versions","concept/interval_associator.hpp"),("add_intersection, flip with containers","concept/interval_set.hpp")], SST, ["+","-","&","^","|"])
prop("S05", "Each kind of interval set keeps its documented segmentation",
 "After every operation a joining set consists of maximal segments (no two segments touch); a separating set keeps segments that merely touch apart, joins an added interval with the segments it overlaps and never merges otherwise; a splitting set keeps every segment border ever introduced: adding an interval cuts overlapped segments at its ends and inserts the uncovered parts as segments of their own. Removal and intersection only cut at operand borders, and the exact sequence of segments after union, difference, intersection and symmetric difference follows from these rules.",
 ANYC, "segmentation is history dependent and hidden from set-equality tests; needs all neighbour configurations",
 SETF, [("join_left/join_right/join_neighbours","detail/interval_set_algo.hpp"),("separating and splitting add_over","split_interval_set.hpp"),("flip gap insertion","concept/interval_set.hpp")], SST, ["iteration order and bounds of segments"])
MAPF = ["interval_base_map.hpp","interval_map.hpp","split_interval_map.hpp","detail/interval_map_algo.hpp","concept/interval_map.hpp","concept/interval_associator.hpp","functors.hpp"]
MST = [("stored segments","ordered std::map interval -> value, disjoint non-empty keys","interval_base_map.hpp")]
prop("S06", "Containers always hold ordered, disjoint, non-empty segments",
 "After any history of public operations the segments of an interval set or interval map, as seen by iteration, are non-empty, pairwise disjoint and strictly ascending in the domain order. Forward and reverse iteration, begin/end, the number of segments and emptiness are consistent with each other.",
 ANYC, "an invariant over histories: tests inspect only final states of a few histories",
 SETF+MAPF[:5], [("all mutating operations","interval_base_set.hpp"),("all mutating operations","interval_base_map.hpp")], SST+MST, ["iteration","iterative_size","interval_count","empty"])

MQ = ANYC+"; partial/total, absorber/enricher traits, several combiners and value types"
prop("M01", "Adding to an interval map combines values exactly where it should",
 "After adding a value or interval with an associated value (member or free function, operator, hinted or not), every key of the operand that was mapped before carries the old value combined with the new one by the map's combiner, every key of the operand that was unmapped carries the new value (inverted for a subtracting combiner), and every other key is unchanged.",
 MQ, "aggregation on overlap touches up to three pieces per overlapped segment and gaps between them; tests cover few alignments, values and combiners",
 MAPF, [("_add<Combiner>, add_main, add_rear, add_segment, add_front","interval_base_map.hpp"),("gap_insert, add_at","interval_base_map.hpp")], MST, ["iteration","operator()","+=","add"])
prop("M02", "Subtracting from an interval map undoes combination exactly where it should",
 "Subtracting a segment from an interval map applies the inverse of the map's combiner to the keys of the operand: in partial maps only to keys that are mapped, in total maps with an invertible value type to all keys of the operand, leaving all others unchanged. Adding and then subtracting the same segment therefore restores the former values where the combiner is invertible.",
 MQ, "inverse aggregation is split over several pieces and depends on totality and the value type", MAPF,
 [("_subtract<Combiner>, subtract_front/main/rear","interval_base_map.hpp"),("inverse combiners","functors.hpp")], MST, ["iteration","operator()","-=","subtract"])
prop("M03", "Insert, set and erase on interval maps follow map semantics",
 "Inserting a segment maps exactly the so far unmapped keys of the operand and changes no existing value; setting a segment overwrites the value on exactly the operand's keys; erasing an interval, key or iterator range removes exactly these keys; erasing a key or interval together with a value removes exactly those of its keys that currently carry that value.",
 MQ, "each operation walks an arbitrary overlap pattern and joins afterwards; tests check a few patterns", MAPF,
 [("_insert, insert_main, insert_rear","interval_base_map.hpp"),("set","interval_base_map.hpp"),("erase(segment), erase(interval), erase_rest","interval_base_map.hpp")], MST, ["iteration","insert","set","erase"])
prop("M04", "Intersecting an interval map selects or combines exactly the common keys",
 "Intersecting a map with a key, an interval or a set of keys keeps exactly the mapped keys contained in the operand with unchanged values. Intersecting a partial map with a key-value operand keeps exactly the common keys with both values combined (intersected if values are sets), a total map combines as with addition, and the domain of a map is exactly the set of its keys.",
 MQ, "selection trims at operand borders on both sides of each segment; tests sample", MAPF,
 [("add_intersection","interval_base_map.hpp"),("add_intersection with sets, domain, between","concept/interval_map.hpp")], MST, ["&=","&","domain","between"])
prop("M05", "Symmetric difference of an interval map with a segment is exact",
 "Taking the symmetric difference of a partial interval map with a key-value operand adds the operand on keys that were unmapped, replaces set-valued contents on common keys by their symmetric difference (other values by the identity element, which absorbing maps drop), and leaves all other keys unchanged. Total maps become empty if they absorb identities and otherwise map all covered keys to the identity.",
 MQ, "flip combines three kinds of pieces per overlapped segment; tests use few", MAPF,
 [("flip / total and partial variants","interval_base_map.hpp"),("flip(container)","concept/interval_map.hpp")], MST, ["^=","^","flip"])
prop("M06", "Operators between interval maps agree with the key-wise definition",
 "Adding, subtracting, intersecting or taking the symmetric difference of two interval maps, or subtracting/erasing/intersecting with an interval set, in place or infix, joining or splitting on either side, yields for every key the result of the key-wise operation on the two value functions (the infix forms of +, & and ^ presuppose a commutative combiner: they may start from either operand). Operands that are not modified in place or moved from stay unchanged.",
 "all pairs of reachable states of maps (and sets) over all combinations of kinds and traits", "needs the cross product of two arbitrary segmentations with values", MAPF,
 [("container operators","concept/interval_associator.hpp"),("add_intersection, flip, erase with maps and sets","concept/interval_map.hpp")], MST, ["+","-","&","^"])
prop("M07", "Each kind of interval map keeps its documented segmentation",
 "After every operation a joining map has no two touching segments with equal values, and a splitting map keeps all borders: an added segment cuts overlapped segments at its ends and its uncovered parts become segments of their own, even next to equal values. The exact sequence of segments after each operation on a map follows from these rules.",
 MQ, "segmentation is history dependent; tests compare few final states", MAPF,
 [("handle_inserted, handle_left_combined, handle_combined, handle_preceeded_combined, handle_reinserted","interval_map.hpp"),("same hooks","split_interval_map.hpp"),("join_left/right/neighbours","detail/interval_map_algo.hpp")], MST, ["iteration order, bounds and values of segments"])
prop("M08", "Identity values are absorbed or kept exactly as the map's traits say",
 "A map whose traits absorb identities never stores the combiner's identity value after any operation, and combining to the identity removes the key; a map whose traits keep identities stores every key that was added. A total map reports the identity value for every unmapped key, and two maps that differ only in stored identities are distinguished by plain equality but not by the equality that ignores identities.",
 MQ, "zero values only arise for particular value sums on particular overlaps", MAPF+["detail/on_absorbtion.hpp","type_traits/absorbs_identities.hpp","type_traits/is_total.hpp","map.hpp"],
 [("on_absorbtion, absorber checks in _add/_insert/_erase","interval_base_map.hpp"),("is_distinct_equal","concept/interval_associator.hpp"),("operator()","interval_base_map.hpp")], MST, ["iteration","operator()","is_distinct_equal"])
prop("M09", "Every documented combiner computes its function on interval and element maps",
 "For each supplied combiner (plus, minus, max, min, bit-and, bit-or, bit-xor, logical operations on sets, insert/erase, identity, inserter/eraser) a map using it holds, after any sequence of additions and subtractions, exactly the fold of the combiner over the values added to each key, starting from the first one (inverted for minus), and of the inverse combiner over the values subtracted. This holds alike for interval maps and element maps and with or without position hints.",
 "all operation sequences up to the bound over all combiners and small value domains", "tests use plus almost exclusively",
 ["functors.hpp","interval_base_map.hpp","map.hpp","type_traits/identity_element.hpp","type_traits/has_inverse.hpp"],
 [("inplace_* functors, inverse<>, conversion<>","functors.hpp"),("version(), add_at, gap_insert","interval_base_map.hpp")], MST, ["operator()","iteration"])
prop("L01", "Lookup finds exactly the segment that covers a key",
 "Searching an interval container for a key returns the segment that contains it, or the end position if there is none; searching for an interval returns the first segment that overlaps it. Lower bound, upper bound and equal range delimit exactly the segments overlapping an interval, and the value function of a map returns the value stored for the key.",
 ANYC, "search depends on the comparison of open/closed borders against every stored segment; tests probe few keys",
 ["concept/interval_associator_base.hpp","interval_base_set.hpp","interval_base_map.hpp"], [("find","concept/interval_associator_base.hpp"),("lower_bound, upper_bound, equal_range, operator()","interval_base_map.hpp")], SST+MST, ["find","lower_bound","upper_bound","equal_range","operator()"])
prop("L02", "Containment, intersection tests and inclusion comparison are exact",
 "Contains, within, intersects and disjoint between an interval container and a value, key, interval, key-value operand or another container answer exactly as the corresponding question about the underlying sets or functions does. The inclusion comparison reports subset, superset, equal or unrelated exactly when that relation holds, independent of segmentation.",
 "all pairs of reachable states of all combinations of kinds and all operands", "needs the cross product of two segmentations",
 ["concept/interval_set.hpp","concept/interval_map.hpp","concept/interval_associator.hpp","detail/interval_subset_comparer.hpp","detail/interval_set_algo.hpp","predicates/sub_super_set.hpp"],
 [("within/contains","detail/interval_set_algo.hpp"),("subset_compare","detail/interval_subset_comparer.hpp"),("intersects, disjoint","concept/interval_associator.hpp")], SST+MST, ["contains","within","intersects","disjoint","inclusion_compare"])
prop("L03", "Equalities and orderings of containers are coherent and exact",
 "Plain equality of two interval containers holds exactly when their segment sequences are equal; element equality holds exactly when they contain the same values (for maps the same key-value function) regardless of segmentation. The ordering is the lexicographic strict weak order of the segment sequences whose equivalence is plain equality, the element ordering is the lexicographic order of the ascending element sequences, and all derived comparison operators are consistent with them.",
 "all pairs (and triples for transitivity) of reachable states over all combinations of kinds", "needs the cross product of many segmentations",
 ["concept/interval_associator.hpp","concept/comparable.hpp","detail/element_comparer.hpp","detail/set_algo.hpp","predicates/element_equal.hpp","predicates/std_equal.hpp"],
 [("lexicographical_equal/compare","detail/set_algo.hpp"),("is_element_equal, element_compare","detail/interval_set_algo.hpp"),("element_comparer","detail/element_comparer.hpp")], SST+MST, ["==","!=","<",">","<=",">=","is_element_equal","is_element_less","is_element_greater"])
prop("L04", "Position hints and inserting iterators never change results",
 "Adding or inserting with any valid position hint into an interval or element container gives the same contents as without a hint. Filling a container through the adding and inserting output iterators equals adding or inserting the items one after another.",
 "all reachable states, all hint positions, all operands", "hints are rarely exercised: one or two positions in the tests",
 ["interval_base_set.hpp","interval_base_map.hpp","map.hpp","iterator.hpp","interval_set.hpp","separate_interval_set.hpp","split_interval_set.hpp"],
 [("add/insert with prior","interval_base_map.hpp"),("add_iterator, insert_iterator","iterator.hpp"),("_add(prior, …), insert(prior, …)","map.hpp")], SST+MST, ["add(hint)","insert(hint)","adder","inserter"])
prop("L05", "Element iteration visits every element once in order, in both directions",
 "Iterating over the elements of an interval container of a discrete domain, forwards, backwards or mixed, visits exactly the values it contains (for maps with the value associated to each key) in ascending respectively descending order, each exactly once. Dereferencing is stable: the same position always yields the same element.",
 ANYC, "positions inside segments interact with open/closed borders on each segment; tests walk few containers",
 ["detail/element_iterator.hpp","detail/mapped_reference.hpp","concept/interval_associator.hpp"], [("element_iterator increment/decrement/dereference","detail/element_iterator.hpp"),("elements_begin/end/rbegin/rend","concept/interval_associator.hpp")], SST+MST, ["elements_begin","elements_end","elements_rbegin","elements_rend","elements"])
prop("L06", "Sizes, hull, first/last and gaps of containers describe the contents exactly",
 "For every interval container the size and cardinality count its elements (infinite for non-trivial continuous contents), the length is the sum of its segments' lengths, and the interval count is the number of its segments. The hull is the smallest interval enclosing the contents, lower/upper/first/last are its bounds, distance is the total size of the gaps and the gaps reported between segments are exactly the values inside the hull that are not contained.",
 ANYC, "sums over arbitrary segmentations; tests check a few",
 ["concept/interval_associator.hpp","concept/interval_set.hpp","concept/interval_map.hpp"], [("cardinality, size, length, distance, hull, lower, upper, first, last","concept/interval_associator.hpp"),("between, domain","concept/interval_set.hpp")], SST+MST, ["size","cardinality","length","distance","hull","first","last","between"])
prop("L07", "Copying, converting, moving, swapping and joining preserve contents",
 "Constructing or assigning an interval container from a value, an interval, a segment or another container of the same or a different kind yields exactly the contents of the source in the segmentation that belongs to the target kind. Copies are independent of the source, moving and swapping transfer contents exactly, clearing empties, and joining only merges touching segments (of equal value) without changing contents.",
 "all reachable states of every source kind converted to every target kind", "conversion between kinds depends on the source segmentation",
 ["interval_set.hpp","separate_interval_set.hpp","split_interval_set.hpp","interval_map.hpp","split_interval_map.hpp","interval_base_set.hpp","interval_base_map.hpp","concept/interval_associator_base.hpp"],
 [("converting constructors and assignment, assign","interval_set.hpp"),("assign_discrete_interval_map..","interval_map.hpp"),("join","detail/interval_map_algo.hpp"),("swap, clear","interval_base_set.hpp")], SST+MST, ["constructors","operator =","swap","clear","join"])
prop("L08", "Element containers obey the same set and map semantics as plain models",
 "The element map and the set functions for standard sets give, after any history of additions, subtractions, insertions, erasures, assignments, intersections and symmetric differences with elements or containers, the contents that the key-wise definition prescribes for their totality and absorption traits. Containment, intersection, inclusion comparison and equality predicates agree with these contents.",
 "all histories up to the bound, all pairs of states, all traits", "tests use small fixed maps with one value type",
 ["map.hpp","set.hpp","concept/element_set.hpp","concept/element_map.hpp","concept/element_associator.hpp","detail/map_algo.hpp","detail/set_algo.hpp","detail/subset_comparer.hpp"],
 [("icl::map _add/_subtract/_flip/_insert","map.hpp"),("element set and map operators","concept/element_map.hpp"),("set_algo/map_algo","detail/set_algo.hpp")], [("elements","std::map / std::set of keys","map.hpp")], ["+","-","&","^","add","subtract","insert","erase","contains","inclusion_compare"])
prop("L09", "The documented algebraic laws hold for every container kind",
 "Associativity, commutativity, neutrality, inversion, distributivity, right distributivity, De Morgan and symmetric-difference laws hold for union, intersection and difference of interval containers, with plain equality or element equality as the documentation's law tables state for each container kind. The laws for maps hold for the traits and value types for which the documentation claims them.",
 "all triples of reachable states of each container kind", "the law tests are randomised and not part of the regression suite",
 SETF+MAPF[:5], [("operators + & - ^","concept/interval_associator.hpp")], SST+MST, ["+","&","-","^","==","is_element_equal"])
prop("L10", "Operations accept operands that alias the container itself",
 "Using a container, or a segment or key stored in it, as the operand of one of its own operations gives the same result as using an independent copy of that operand, and never accesses freed memory.",
 "all reachable states, all operations, all own segments as operand", "aliasing of an arbitrary own segment is never tested",
 SETF+MAPF[:5], [("self tests in operators and in-place loops","concept/interval_associator.hpp"),("subtract/erase/flip of self","concept/interval_map.hpp")], SST+MST, ["operators with self operand"])
prop("L11", "Containers work up to the numeric limits of the domain type",
 "For every interval type whose bounds can represent the operand, construction, membership, segmentation, set and map operations and counting are exact also for intervals that reach the smallest or largest value of the domain type. No such operation fails, loops or wraps around.",
 "all states and operands over grids placed at the lower and upper numeric limits of small and large integral types", "tests stay near zero",
 ITV+["interval_base_set.hpp","interval_base_map.hpp"], [("first/last/is_empty/touches with succ/pred","concept/interval.hpp")], SST+MST, ["contains","iteration","cardinality"])
prop("L12", "Streaming prints every segment faithfully and in order",
 "Writing an interval, interval container or element container to an output stream prints, in ascending order, each segment with the brackets of its bound kinds, its two bounds and for maps its associated value, in a form that determines the contents uniquely.",
 "all reachable states", "tests rarely look at printed output",
 ["concept/interval.hpp","concept/interval_set.hpp","concept/interval_map.hpp","concept/element_map.hpp","concept/element_set.hpp","concept/interval_bounds.hpp"], [("operator <<","concept/interval.hpp"),("operator << for containers","concept/interval_set.hpp")], None, ["operator <<"])
prop("L13", "Predicate-driven erasing, adding and assigning select exactly the matching items",
 "Erasing by predicate removes exactly the segments or elements that satisfy it, adding by predicate adds exactly the satisfying items of the source, and assigning by predicate makes the target consist of exactly the satisfying items of the source. All of them terminate for every container and predicate.",
 "all reachable states, all predicates over segments of the grid", "erase_if is tested on one example, the others never",
 ["concept/interval_map.hpp","concept/element_associator.hpp","concept/element_map.hpp","concept/element_set.hpp"], [("erase_if, add_if, assign_if","concept/interval_map.hpp"),("erase_if, add_if, assign_if","concept/element_associator.hpp")], None, ["erase_if","add_if","assign_if"])
prop("L14", "An exception never corrupts, leaks from or invents content in a container",
 "Provided that copying and comparing keys does not throw: if memory allocation or an operation of the associated values throws at any point of any set, map or copy operation, the exception reaches the caller and every container involved stays valid, with ordered, disjoint, non-empty segments and consistent sizes. Operands that are only read keep their contents, keys outside the operand of an update neither appear nor change their value, and no memory or value is leaked.",
 "every reachable state, every operation and every point at which the operation can throw", "no test ever makes an allocation or value operation throw",
 ["interval_base_set.hpp","interval_set.hpp","separate_interval_set.hpp","split_interval_set.hpp","interval_base_map.hpp","interval_map.hpp","split_interval_map.hpp","map.hpp"], [("update steps that cut, insert and join segments","interval_base_map.hpp"),("add/subtract/join steps","interval_base_set.hpp"),("element updates","map.hpp")], None, ["add","subtract","insert","set","erase","flip","operators + - & ^","copy"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    for x in p["anchors"]["files"]: assert os.path.exists("/repo/"+x), x
    for m in p["anchors"]["mechanism"]: assert os.path.exists("/repo/"+m["where"]), m
    assert len(p["title"])<=80, p["id"]
    assert p["statement"].count(". ")<=2, p["id"]
print(len(P))
