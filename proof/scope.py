"""per property: what is proved for all inputs, and what is only checked on a bounded set of cases (used for MANIFEST.json, evidence and DESIGN.md)"""
S={
'C01':("the index maps built at set-up (local_map, unique_ids), the message lists and buffer maps of the pairwise method (pw_comm_setup, pw_map_setup), what it posts (pw_exec_recvs, pw_exec_sends), the pairing schedule of the router method (cr_schedule, with the fact that every process receives from exactly those that send to it), and all local gather, scatter and init kernels",
       "id discovery across processes, router stage labelling (cr_learn), the all-reduce maps, and the composition over processes"),
'C02':("which entries enter the local maps when flagged ids are ignored (local_map, flagged_primaries_map) and which rows enter the message lists under a flag mask (pw_comm_setup, pw_map_setup)","the two directions end to end"),
'C03':("the vector, many-array and strided local kernels equal the scalar kernel per component (gather_vec, init_vec under contract; scatter_vec and the many forms as listed in the evidence)","the exchanges carrying several components, the Fortran field forms"),
'C04':("the message lists, the arguments of every posted receive and send, and the router schedule, shared by the blocking and the split form","interleavings of starts and waits, the all-reduce executor, the Fortran handle table"),
'C05':("the primary rows are the distinct ids of a process (unique_ids), the map of flagged primaries (flagged_primaries_map, local_map)","make_topology_unique and gs_unique across processes"),
'C06':("every local kernel of gs_local.c under contract: gather, gather_array, scatter, init and their vector and many forms, for each of the five types and five operations, including bpr, and the type/operation dispatchers listed in the evidence","exact values of the identity elements on extreme inputs, type-dispatch through the public entry points"),
'C08':("counting, offset and value passes of the radix sort (radix_count, radix_offsets, radix_passv*), including the skipping of digits","the whole function sortv for lengths on both sides of the method switch"),
'C09':("the index passes of the radix sort (radix_index, radix_passp*), which keep the permutation property and stability","the whole function sortp and its start permutation"),
'C10':("sarray_permute_ moves every record whole along the cycles, leaves the permutation as it was, and touches nothing else","the composition with sortp in the sarray_sort macros"),
'C11':("crystal_move splits the message stream exactly, uintcpy copies, and in the schedule of crystal_router every process receives from exactly those that send to it, at every stage","crystal_exchange over the message layer, the delivery end to end"),
'C12':("packing and unpacking of rows for the router (pack_int, pack_ext, pack_more, unpack_*, counting) on bytes","sarray_transfer_many end to end, transfers back"),
'C13':("the capacity rule of the unpacking functions: what fits is stored, nothing beyond, and the total is reported","the composition with the router"),
'C14':("all of mem.h and fail.c's allocation path: the checked allocators, array growth, reservation and concatenation, buffers, with multiplication overflow ruled in the preconditions","contents across byte-wise reallocation, seen under the sanitizers"),
'C16':("dot, mxv, mtxv, mxm, mtxm (plain C build) and the composed 1-, 2- and 3-dimensional interpolation kernels listed in the evidence, over the reals","the BLAS build, floating-point rounding"),
'C17':("over the reals: the 1-dimensional bounds (gslib_lob_bnd_1, lob_bnd_fst, lob_bnd_lin_1, minmax) enclose the polynomial at every argument where the tabulated basis bounds hold; merging and expanding ranges only widens them; the inverse matrices are inverses; the transforms into the oriented frame and the strided edge and face copies are exact; the four box tests accept exactly the points inside the box",
       "the tabulated basis bounds made by lob_bnd_setup, the 2- and 3-dimensional bounds (lob_bnd_ext), the composition in obbox_calc_2 and obbox_calc_3, floating-point rounding"),
'C07':("the hand-written tree reduction and tree scan, for every process count up to 2^30 and every process: with the tree node of each message named, every process ends with the combination of all processes' vectors, the scan also with that of the processes below it; which peer, size, tag and payload each message has; buffers of posted messages left alone until the wait; the entry points choose the library operation, type and operation that match; local reductions before the global one; the local-inner-product form",
       "MPI itself: a received message is what the sender with the same tree node proved about it, messages between two processes in order; associativity and commutativity of the operation (exact for the integer types, up to rounding for the others); allocation and bookkeeping of comm_init, comm_split, comm_bcast and comm_gather (thin wrappers)"),
'C18':("over the reals: the cell of a point and the cell range of a box (every point strictly inside a box has its cell in the range, ranges stay inside the grid), the hash factors; setting, reading and counting mask bits; the mask has the bit of every cell of every element box and loses none; the list of (process, index) pairs of exactly the set bits; the cell table of a process (for each cell the entries of exactly that cell, each entry present)",
       "the composition over processes (hash_build, setup), the candidate search of the query itself, floor and ceil (assumed as their mathematical definitions), rounding"),
'C22':("over the reals: the Legendre recurrences with first and second derivatives, the node and quadrature routines (symmetry, end points, weights as functions of the computed nodes, tabulated nodes), the general Lagrange evaluation with two derivatives, and the weights that make the basis cardinal","convergence of the Newton iterations and exactness of the quadrature; the generated fixed-size evaluation functions; rounding"),

'C15':("the 31 Fortran entry points (gather-scatter, crystal router, findpts, findptsms): each one hands its arguments on unchanged (values, not addresses; arrays as they are; the field pointers at base + k*stride*size without wrapping; type, operation and method codes through the documented tables), to the handle's own record, exactly once; handles are the positions of live records, freed ones are reused and rejected, a bad handle stops the program; the tuple forms pack every column in the order of the arguments, route on the named column, and unpack every column, up to the stated capacity",
       "the C functions behind the entry points (their own properties)"),
'C20':("over the reals, for every number of points: the evaluation in an element (findpts_el_eval_2, _3 with their tensor kernels) stores for each point the sum over the nodes of the nodal value times the product of the basis functions at the point's coordinates, and writes nothing else; the local evaluation over elements (findpts_local_eval_2, _3) gives each point the value of its own element's data, whatever the order of the elements, and covers every point once",
       "the routing of points to the process that holds the element and of results back (findptsms_eval, setup_fev_aux); the generated Lagrange evaluation functions (reached through a pointer, see C22); rounding"),
'C21':("over the reals: the 2x2 and 3x3 systems of the Newton steps are solved exactly when regular; the acceptance test compares the decrease with its prediction, adjusts the trust radius, and restores position, distance and flags when it rejects; a step along an edge stays in the element and the trust region, minimises the quadratic model there, predicts the decrease, reports the end of the edge exactly where it stops there, and flags convergence exactly when the step is below the tolerance; other coordinates are kept",
       "the steps in the interior and on faces (newton_area, newton_vol, newton_face), the grouping of points by constraint, convergence of the iteration, rounding"),
}
