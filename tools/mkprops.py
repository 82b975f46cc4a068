#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a program only to keep the lines readable)
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs="",hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=[obs],hook_needed=hook)))
T="gs_test and friends run a handful of fixed id patterns on 1 and 2 processes and mostly check that the three methods agree or that integers sum to a known value"
p("C01","Gather-scatter combines all values of an id on any method and process count",
 "After a gather-scatter over an id array, every entry with a nonzero id holds the chosen operation (add, multiply, min, max, bpr) applied to all values that carried the same id anywhere on all processes, and entries with id zero keep their value bit for bit. The answer does not depend on which communication method was chosen, how ids are distributed, ordered or repeated, or how many processes take part, apart from rounding of floating-point sums and products.",
 ["inputs","configurations","schedules"],
 "all local array lengths (including 0), all id multisets (repeated on one process, on one process only, shared by any subset, zero, large), all process counts (powers of two or not), methods pairwise, crystal router, all-reduce and automatic, all value types and operations for which the operation is defined, any message delivery order",
 T+"; process counts above 2, repeated ids on one process together with remote sharing and uneven distributions are not reached.",
 ["src/gs.c","src/gs_local.c"],
 [("topology discovery (nonzero, shared, primary)","src/gs.c: get_topology, make_topology_unique"),("local maps","src/gs.c: local_map, flagged_primaries_map"),("pairwise exchange","src/gs.c: pw_setup, pw_exec"),("crystal router exchange","src/gs.c: cr_setup, cr_learn, cr_exec"),("all-reduce exchange","src/gs.c: allreduce_setup, allreduce_exec"),("kernels","src/gs_local.c: gather, scatter, init")],
 [("map_local","index lists grouping equal local ids, -1 terminated","src/gs.c struct gs_data")],"the value array after gs returns on every process")
p("C02","Flagged (negative) ids follow the documented one-way semantics",
 "An entry with a negative id belongs to the group of its absolute value but is flagged: in a normal operation a flagged entry contributes nothing and receives the combined value of the unflagged entries, and in the transposed operation a flagged entry contributes its value and only unflagged entries receive the result.",
 ["inputs","configurations","schedules"],
 "all flag patterns on all processes, both directions, all methods, process counts, types and operations; groups with no unflagged entry at all are excluded (nothing is defined there), as is the local part of a group in which a process holds several flagged and no unflagged entries (known finding)",
 T+"; flagged ids with transposition occur in one fixed pattern only.",
 ["src/gs.c","src/gs_local.c"],[("flag handling in maps","src/gs.c: local_map(..., ignore_flagged), flagged_primaries_map"),("transpose selection","src/gs.c: gs_aux, the [recv^transpose] map choice")],[],"the value arrays after gs with transpose 0 and 1")
p("C03","Vector, many-array and strided variants equal the scalar form per component",
 "The vector form, the many-arrays form and the Fortran field form of the gather-scatter give, component by component, exactly what the scalar form gives for that component alone, and touch no other memory.",
 ["inputs","configurations"],
 "all vector lengths from 1 up, all numbers of arrays (also several arrays aliasing parts of one buffer without overlap), all strides, methods, types and operations",
 "The tests use vector length 1 to 3 on one pattern and do not compare neighbouring components; packing errors that only show for several components on several neighbours remain.",
 ["src/gs.c","src/gs_local.c"],[("vector and many kernels","src/gs_local.c: gather_vec, scatter_vec, gather_many, scatter_many, vec_to_many kernels"),("unit size handling in the exchanges","src/gs.c: pw_exec*, cr_exec*, allreduce_exec*")],[],"value arrays after gs_vec, gs_many, gs_op_fields")
p("C04","Non-blocking gather-scatter equals the blocking one at its wait",
 "Starting an operation and waiting for it later gives the same result as the blocking call with the same arguments, whatever other operations on other handles are started or completed in between and however messages are delayed. The caller may reuse its argument lists after the start, as long as it leaves the values alone until the wait.",
 ["schedules","histories","configurations"],
 "all interleavings of starts and waits of operations on different handles, all methods, variants, with or without a caller-supplied buffer, any message delivery order and any test/wait completion order; at most one outstanding operation per handle",
 "The non-blocking tests do one start directly followed by one wait, with the pairwise method only, on at most 2 processes.",
 ["src/gs.c","src/comm.h"],[("start/wait split","src/gs.c: gs_irecv, gs_isend, gs_wait, gs_aux_irecv/isend/wait"),("per-method non-blocking executors","src/gs.c: pw_exec_irecv/isend/wait, cr_exec_*, allreduce_exec_i*"),("non-blocking all-reduce","src/comm.h: comm_iallreduce")],[],"value arrays after the wait")
p("C05","Making ids unique leaves exactly one unflagged holder per id",
 "After the unique operation every nonzero id appears unflagged (positive) exactly once over all processes and all other occurrences are negated; absolute values are unchanged and zeros stay zero. A gather-scatter set up on the result therefore counts every id once.",
 ["inputs","configurations","schedules"],
 "all id arrays (repeats on one process, ids on one process only, flagged on input), process counts and delivery orders",
 "One test with a fixed pattern checks a sum on at most 2 processes.",
 ["src/gs.c"],[("choice of the representative","src/gs.c: make_topology_unique, gs_unique")],[],"the id array after gs_unique, and setups with the unique option")
p("C06","The reduction domains and local kernels implement their mathematical operations",
 "For every type, each operation has its identity element as initial value and is applied to exactly the entries listed in the given index map, in all local variants (gather, scatter, array, vector, many); no other entry is read for its value or written.",
 ["inputs"],
 "all index maps (any groups, any lengths, empty), all array contents, all types and operations; floating-point NaN excluded",
 "Local kernels are only run indirectly with a few ids; identities are not tested on extreme values and the unrolled loops only for small lengths.",
 ["src/gs_local.c","src/gs_defs.h"],[("kernels","src/gs_local.c: gather_*, scatter_*, init_*, gs_gather_array, gs_init_array, *_vec, *_many"),("operations and identities","src/gs_defs.h: GS_DO_add..bpr, gs_identity_*")],[],"the output arrays of the local kernels")
p("C07","Collectives give the exact reduction, scan and broadcast for every process count",
 "The all-reduce gives every process the reduction over all processes in place, for every element; the scan gives each process the reduction over lower-ranked processes and the total; the dot product, shifts and scalar reductions agree with their definitions. Blocking, non-blocking and hand-written tree versions agree.",
 ["inputs","configurations","schedules"],
 "all process counts (powers of two or not), vector lengths including 0, types, operations, and delivery orders",
 "comm_test covers a few reductions on 1 and 2 processes, so the odd-size branches of the trees are not reached.",
 ["src/comm.c","src/comm.h"],[("recursive halving scan","src/comm.c: scan_imp"),("tree all-reduce","src/comm.c: allreduce_imp, comm_allreduce, comm_iallreduce, comm_wait"),("inline wrappers","src/comm.h: comm_reduce__T, comm_dot")],[],"result vectors on all processes")
p("C08","Value sort returns the sorted permutation of its input",
 "Sorting an array of unsigned values returns the same multiset in non-decreasing order, for both integer widths, any stride and any length, without touching memory outside its output and work area.",
 ["inputs"],"all lengths (both sides of the switch between methods), all values, strides, aliasing of input and output as documented",
 "sort_test prints a few arrays; the switch of method by length and key width and the skipping of constant digits are only exercised for chosen sizes.",
 ["src/sort.c","src/sort_imp.h"],[("radix passes","src/sort_imp.h: radix_count, radix_offsets, radix_zeros, radix_passv, radix_sortv"),("merge sort for short arrays","src/sort_imp.h: merge_sortv")],[],"the output array")
p("C09","Permutation sort is a stable permutation, fresh or refining an earlier one",
 "Sorting indices returns a permutation of 0..n-1 that lists the keys in non-decreasing order with equal keys in input order; when started from an earlier permutation, equal keys stay in the order of that permutation, so sorting by a minor then a major key sorts lexicographically.",
 ["inputs","histories"],"all lengths, keys, strides, start permutations",
 "Only printed samples; stability is not checked and refinement only through one record sort.",
 ["src/sort.c","src/sort_imp.h"],[("radix permutation passes","src/sort_imp.h: radix_passp*, radix_sortp"),("merge permutation sort","src/sort_imp.h: merge_sortp"),("start permutation flag","src/sort_imp.h: sortp, start_perm")],[],"the permutation in the buffer")
p("C10","Record sort and permute move whole records, stably, keeping every byte",
 "Sorting records by one to four integer keys reorders whole records into lexicographic key order, stably, with every byte of every record preserved exactly once; applying a permutation to an array puts the record with index perm[i] at place i and leaves the permutation itself as it was; the inverse operation undoes it.",
 ["inputs"],"all record sizes and alignments, key types and numbers, lengths (including 0 and 1), permutations",
 "sarray_sort_test sorts one record type and prints it.",
 ["src/sarray_sort.c","src/sarray_sort.h","src/sort_imp.h"],[("in-place permutation along cycles","src/sarray_sort.c: sarray_permute_, sarray_permute_buf_"),("key field passes","src/sarray_sort.h macros, src/sort.h sortp")],[],"the record array")
p("C11","The crystal router delivers every message exactly once, unchanged, to its target",
 "After a crystal router exchange every process holds exactly the messages addressed to it by all processes (itself included), each once, with length, sender, and contents intact, for any number of processes and any distribution of messages.",
 ["inputs","configurations","schedules"],"all process counts, all message multisets (empty, all to one, zero-length), repeated use of one router, any delivery order",
 "crystal_test sends one message pattern on 1 and 2 processes: the three-way exchange step of odd sizes and the uneven halves never run.",
 ["src/crystal.c"],[("recursive bisection","src/crystal.c: crystal_router"),("splitting and merging","src/crystal.c: crystal_move, crystal_exchange, uintcpy")],[("cr->data","message stream: target, source, length, words","src/crystal.h")],"the router's data buffer")
p("C12","Record transfer routes every record exactly once and reports its source",
 "A transfer moves every record to the process named in its processor field, or in a separate array, exactly once with its contents intact, and, if asked, replaces the field by the source processor so that a second transfer returns every record to where it came from. The parts of a row held in several parallel arrays travel together.",
 ["inputs","configurations","schedules","histories"],"all record layouts (the processor field first, middle, last, or the only one), counts, targets, process counts, repeated transfers, any delivery order",
 "sarray_transfer_test runs one pattern on at most 2 processes and prints it.",
 ["src/sarray_transfer.c","src/sarray_transfer.h","src/fcrystal.c"],[("packing of headers and rows","src/sarray_transfer.c: pack_int, pack_ext, pack_more"),("unpacking","src/sarray_transfer.c: unpack_more, sarray_unpack*"),("offset arithmetic","src/sarray_transfer.c: sarray_transfer_many, sarray_transfer_, sarray_transfer_ext_")],[],"the record array after the transfer")
p("C13","A transfer into fixed capacity keeps what fits and reports the required size",
 "When the receiver's capacity is fixed, the transfer stores no more rows than fit, never writes beyond the given arrays, keeps rows whole and identical across parallel arrays, and reports the total number of rows that were sent to this process.",
 ["inputs","configurations"],"all capacities including 0 and smaller than the number of rows held, all distributions and process counts",
 "No existing test limits the capacity.",
 ["src/sarray_transfer.c","src/fcrystal.c"],[("row counting and capping","src/sarray_transfer.c: num_rows, cap_rows, sarray_transfer_many with fixed"),("Fortran interface","src/fcrystal.c: fcrystal_tuple_transfer")],[],"arrays, count and returned size")
p("C14","Growable arrays and buffers never lose contents or hand out too little memory",
 "Reserving room makes at least the requested capacity available and preserves all contents; copying, concatenating and resizing keep exactly the documented bytes; alignment helpers return the least suitable offset not below their argument; a failed allocation ends the program instead of returning.",
 ["inputs","histories"],"all sequences of initialise, reserve, resize, copy, append and free with all sizes whose byte counts are representable",
 "The memory layer is only used, never tested; growth near capacity limits is not reached.",
 ["src/mem.h"],[("growth","src/mem.h: array_reserve_, array_resize_, array_init_, smalloc, srealloc, scalloc"),("concatenation","src/mem.h: array_cat_, array_append_"),("alignment","src/mem.h: align_as_, align_ptr, buffer_*")],[("array.max","capacity in units, 0 before the first allocation","src/mem.h struct array")],"array.ptr, n, max and contents")
p("C15","The Fortran interface maps handles and arguments to the matching C operation",
 "Every Fortran entry point acts on exactly the object its handle names and gives the result of the corresponding C call; freed or never issued handles are refused with a diagnostic, and handles stay valid while others are created and freed.",
 ["histories","inputs"],"all sequences of setup, use and free on many handles of all kinds, all datatype and operation codes",
 "The Fortran tests create one handle of each kind.",
 ["src/gs.c","src/fcrystal.c","src/findpts.c"],[("handle tables","src/gs.c, src/fcrystal.c, src/findpts.c: handle_array, handle_n, handle_max, CHECK_HANDLE"),("code tables","src/gs.c: fgs_info domain/op mapping, fgs_fields, fgs_many")],[],"outputs of fgs_*, fcrystal_*, ffindpts_* calls")
p("C16","Tensor kernels compute the matrix and tensor products they name",
 "Matrix-vector, matrix-matrix, transposed, dot, outer and one- to three-dimensional tensor application and interpolation (with gradients) kernels give the mathematically defined sums for all sizes, writing exactly their output, up to rounding.",
 ["inputs"],"all dimensions including 0 and 1 where allowed, all contents, non-overlapping arguments",
 "The kernels are only run inside interpolation tests of a fixed order in three dimensions.",
 ["src/tensor.c","src/tensor.h"],[("products","src/tensor.c: tensor_mxv, tensor_mtxv, tensor_mxm, tensor_mtxm; src/tensor.h: tensor_dot"),("interpolation","src/tensor.h: tensor_i1..i3, ig1..ig3, tensor_c/m")],[],"the output arrays")
p("C17","Polynomial bounds and element boxes contain everything they promise to contain",
 "The computed lower and upper bounds enclose a polynomial given by its nodal values everywhere on the reference interval, square or cube; the axis-aligned and oriented box computed for an element contain every point of the element, and the box tests accept exactly points inside the box.",
 ["inputs"],"all nodal values, orders and bound-mesh sizes at least twice the order, all non-degenerate elements, positive tolerance, up to rounding",
 "lob_bnd_test and obbox_test sample one random field or element per run.",
 ["src/lob_bnd.c","src/obbox.c","src/obbox.h"],[("bounds of basis functions","src/lob_bnd.c: lob_bnd_setup"),("bounds of polynomials","src/lob_bnd.c: lob_bnd_fst, lob_bnd_ext, lob_bnd_1..3"),("boxes","src/obbox.c: obbox_calc_2, obbox_calc_3; src/obbox.h: dbl_range_merge, dbl_range_expand, obbox_test_*")],[],"bound arrays, boxes, box tests")
p("C18","No element whose box holds a point is missed by the search tables",
 "For every queried point, every element on every process whose bounding box contains the point is tried: a point is reported as not found exactly when no such element exists, whatever the table sizes, the number of points searched together, the distribution of elements and the process that asks.",
 ["inputs","configurations","schedules"],"all meshes, distributions (processes without elements included), table sizes, points inside, outside, on faces; process counts; cell numbers beyond 32 bits",
 "findpts_test uses one table size and random interior points on 1 and 2 processes, and a missed remote candidate is invisible when another holds the point.",
 ["src/findpts.c","src/findpts_imp.h","src/findpts_local_imp.h"],[("cell numbers","src/findpts.c: hash_index_aux; hash_index, hash_range"),("local table","src/findpts_local_imp.h: hash_build, hash_count, map_points_to_els"),("global table","src/findpts_imp.h: set_local_mask, fill_hash, table_from_hash, findptsms routing")],[],"result codes of the point search")
p("C19","The point search returns the best candidate with consistent coordinates",
 "The result for a point is an element that contains it if any candidate does, otherwise the border candidate at the smallest distance; processor, element, reference coordinates, squared distance and code belong together. With several sessions, only allowed sessions are searched, the best candidate of each session is chosen this way, and the session with the largest distance function wins.",
 ["inputs","configurations","schedules"],"all meshes with overlapping or touching elements, points on faces, edges and outside, session assignments, matching modes, strides, process counts and delivery orders",
 "Tests check that interior points of one mesh are found; ties, border candidates on several processes and several sessions are checked only through one global error norm.",
 ["src/findpts_imp.h","src/findpts_local_imp.h"],[("local selection","src/findpts_local_imp.h: findptsms_local"),("remote merge","src/findpts_imp.h: findptsms, merge of remote results")],[],"code, proc, el, r, dist2 arrays")
p("C20","Field evaluation gives each point the value in the element that owns it",
 "Evaluating a nodal field at located points gives, for each point, the field's polynomial on that point's processor and element at its reference coordinates, stored at that point's place in the output; points marked not found, and gaps between strided outputs, keep their old contents.",
 ["inputs","configurations","schedules","histories"],"all point sets, groupings by element, batch sizes, strides, repeated evaluation of different fields, process counts; the point set stays that of the first evaluation until the next search (known finding)",
 "Tests evaluate the coordinates themselves and look at the largest error on at most 2 processes.",
 ["src/findpts_imp.h","src/findpts_local_imp.h","src/findpts_el_2.c","src/findpts_el_3.c"],[("routing of evaluation points","src/findpts_imp.h: setup_fev_aux, findptsms_eval"),("grouped evaluation","src/findpts_local_imp.h: findptsms_local_eval"),("element evaluation","src/findpts_el_2.c: findpts_el_eval_2; src/findpts_el_3.c: findpts_el_eval_3")],[("savpt","evaluation points received, grouped by element","src/findpts_imp.h struct findpts_data")],"the output array")
p("C21","The search in one element returns the closest point with truthful flags",
 "For a mildly deformed element, a point inside is located at its reference coordinates, a point outside at a point of the element that satisfies the conditions of a nearest point, with the constrained coordinates exactly at the boundary and flagged; the squared distance belongs to the returned coordinates, and points searched together do not influence each other.",
 ["inputs"],"all orders, batch sizes, points inside, on and near the boundary; elements deformed so mildly that the reference map is well conditioned",
 "The element tests print convergence counts of random points; border results are not compared with a nearest point.",
 ["src/findpts_el_2.c","src/findpts_el_3.c"],[("constrained Newton steps","newton_area, newton_vol, newton_face, newton_edge"),("constraint handling","findpt_pt, findpt_edge, findpt_face"),("batching","findpts_el_2, findpts_el_3: grouping by constraint")],[],"r, dist2, flags of the searched points")
p("C22","Quadrature rules and Lagrange bases are exact",
 "The Gauss and Lobatto nodes and weights integrate polynomials exactly up to the degree of the rule, nodes are increasing and symmetric; the Lagrange basis functions and their derivatives at any point are those of the polynomials that are one at their node and zero at the others, in general and in specialised form.",
 ["inputs"],"all orders, all points of the reference interval, up to rounding",
 "poly_test compares a few orders by eye; most orders of the specialised forms and points next to nodes are not compared.",
 ["src/poly.c","src/poly_imp.h"],[("quadrature","src/poly.c: gauss_nodes, gauss_quad, lobatto_nodes, lobatto_quad"),("general basis","src/poly.c: lagrange_setup, lagrange_0..2"),("specialised bases","src/poly_imp.h: gll_lag_N, gll_lag_setup")],[],"node, weight and basis arrays")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
