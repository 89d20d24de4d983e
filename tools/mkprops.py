import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
SL=("sendlist/recvlist","per-communicator queues of pending sends and pending receives, oldest first","mpiP.h (Comm)")
RQ=("Req","one pending or completed operation: buffer, tag, count, type, completion flag","mpiP.h (Req)")
HT=("blocks/nextfree","handle table shared by communicators, requests and datatypes; LIFO free list","handles.c")
TM=("Typestruct.pairs","flattened typemap: (basic type, displacement) pairs plus lb/ub and override flags","type.h")
p("C01","Messages and receives match in order, each exactly once",
 "On one communicator every receive gets the earliest-sent message not yet received whose tag it accepts (its exact tag, or any tag with MPI_ANY_TAG), and every message goes to the earliest-posted receive still pending that accepts it, however posts, probes, tests and waits are interleaved. Each message satisfies exactly one receive and each receive takes exactly one message. A pending message and a pending receive that accept each other never coexist.",
 ["histories","programs"],"Every sequence of send/receive/probe/test/wait calls of any flavour, with any mix of tags (0 to the largest int) and wildcards, any number pending, any match position in the pending queues.",
 "The tests post one or a few operations and match them immediately at the head of an almost empty queue; order among several compatible pending operations, wildcard interplay and removal from the middle or the tail of a queue are not examined.",
 ["send.c","recv.c","list.c","req.c","mpiP.h"],
 [("first match from the oldest in the posted-receive queue","send.c MPI_Isend, mpi_match_recv"),("first match from the oldest in the pending-send queue","recv.c MPI_Irecv, mpi_match_send"),("append/delete/search of the doubly linked queues","list.c AP_list_append, AP_list_delete_item, AP_list_search_func")],[SL,RQ],["received data and statuses of MPI_Recv/Irecv/Wait*/Test*"])
p("C02","A matched receive gets exactly the sent data, in its own layout",
 "When a send and a receive match, the elements described by the sender's buffer, count and datatype are stored, in order, at the places described by the receiver's buffer, count and datatype, whichever of the two was posted first and whatever the two layouts and counts are (as long as the element types agree). A shorter message fills only the leading elements of the receive, of a longer one only as many elements as the receive holds are delivered. No other byte of the receive buffer, of the send buffer or of any other memory changes.",
 ["inputs","programs"],"All pairs of send/receive layouts built from any datatype constructors (gaps, negative and >2 GiB displacements, absolute addresses with MPI_BOTTOM, zero counts, more than 2^31 elements), both posting orders, all call flavours.",
 "Tests use a handful of layouts, usually the same on both sides, receive-first only, and never look at the bytes between and beyond the elements.",
 ["copy.c","send.c","recv.c","type.c"],
 [("element-wise copy through two typemaps","copy.c Pcopy_data2"),("delivery on send after receive","send.c MPI_Isend"),("delivery on receive after send","recv.c MPI_Irecv")],[RQ,TM],["memory of the receive buffer and its surroundings after the match"])
p("C03","Statuses tell the truth, from whichever call they come",
 "Every call that completes a receive or reports a message (MPI_Recv, Sendrecv, Wait/Test and their any/all/some forms, Probe, Iprobe) fills its status with source 0, the message's actual tag, and a count from which MPI_Get_count and MPI_Get_elements give the number of datatype items and basic elements actually received. Null requests give the empty status (MPI_ANY_SOURCE, MPI_ANY_TAG, count 0). MPI_STATUS_IGNORE and MPI_STATUSES_IGNORE are accepted everywhere, for any number of requests.",
 ["histories","inputs"],"All completing and probing calls, tags and wildcards, messages shorter than, equal to and longer than the receive, any datatype, C and Fortran bindings, with and without ignored statuses.",
 "Tests check a status at a few MPI_Recv calls only; count after Wait/Test/Probe/Sendrecv, wildcard tags and statuses for short messages are never examined.",
 ["req.c","recv.c","send.c","probe.c","getcount.c","mpi.c"],
 [("status filled when the request completes","req.c MPI_Test"),("count extraction","getcount.c MPI_Get_count, MPI_Get_elements"),("ignored statuses in Fortran","mpi.c mpi_c_status, mpi_c_statuses")],[RQ],["MPI_Status fields, MPI_Get_count, MPI_Get_elements"])
p("C04","A request completes exactly when matched and is released exactly once",
 "A nonblocking operation is reported complete by Test/Wait from the moment it has been matched (at once for MPI_PROC_NULL) and never earlier; testing an incomplete request changes nothing. Completing it sets the caller's handle to MPI_REQUEST_NULL and releases it once, after which testing or waiting on the null handle succeeds immediately. MPI_Request_free nulls the handle without cancelling or corrupting the operation: a pending freed operation still matches and moves its data.",
 ["histories"],"All interleavings of posting, matching, testing, waiting and freeing requests, with many requests outstanding and handles being recycled.",
 "Tests complete each request once right after it has matched; repeated tests of pending requests, freeing pending requests and handle recycling among live requests do not occur.",
 ["req.c","send.c","recv.c","handles.c"],
 [("completion flag set on match","send.c/recv.c"),("handle freed and nulled on successful test","req.c MPI_Test"),("request release","req.c MPI_Request_free")],[RQ,HT],["flag, request handle value, receive buffer"])
p("C05","Any/all/some completion calls report exactly what completed",
 "Waitany/Testany complete one completed active request and return its index and status, ignoring null requests. Waitall/Testall complete all requests, with statuses in request order, and Testall touches nothing unless all are complete. Waitsome/Testsome complete every completed active request and return their number, indices and statuses in matching positions; when no request is active the result is MPI_UNDEFINED (any, some) or success with empty statuses (all).",
 ["inputs","histories"],"All arrays of any length mixing null, pending, completed and PROC_NULL requests, sends and receives, in any position, including empty arrays and ignored statuses, C and Fortran index conventions.",
 "The tests call only MPI_Waitall and a testany/testall pattern with everything complete; arrays mixing null, pending and complete requests are never used.",
 ["req.c"],
 [("any","req.c MPI_Testany, MPI_Waitany"),("all","req.c MPI_Testall, MPI_Waitall"),("some","req.c MPI_Testsome, MPI_Waitsome")],[RQ],["flag, index, outcount, index array, status array, request array"])
p("C06","Blocking calls return when satisfiable and otherwise abort, never hang",
 "MPI_Send, Ssend, Rsend, Recv, Sendrecv, Probe, Wait, Waitany, Waitall and Waitsome return success exactly when their operation can complete given what has already been posted. When it cannot, since no other process exists to satisfy it, the program terminates abnormally with a diagnostic on its output; it never hangs, continues with an incomplete operation, or terminates silently. MPI_Irsend likewise aborts unless a matching receive is already posted.",
 ["histories","inputs"],"All blocking calls, in every state of the pending queues, including tags that do not match, other communicators, and arrays in which only some requests are complete.",
 "Tests never reach a deadlocking call (it would kill the test program) and exercise few satisfiable ones.",
 ["send.c","recv.c","req.c","probe.c"],
 [("deadlock detection in Wait/Waitany/Waitall/Waitsome","req.c"),("deadlock detection in Probe","probe.c MPI_Probe"),("ready send check","send.c MPI_Irsend")],[SL,RQ],["process termination, stderr/stdout"])
p("C07","Communicators isolate traffic",
 "Messages and receives on one communicator never match, complete, reorder or are visible to probes on another one, whether obtained by dup, split, create, cartesian or intercommunicator constructors, and also when a communicator's handle value is recycled after it has been freed. Freeing a communicator leaves all others and their pending traffic intact.",
 ["histories","programs"],"All histories with any number of communicators created, used and freed in any order, with identical tags in use on all of them.",
 "Tests use MPI_COMM_WORLD almost exclusively for traffic.",
 ["comm.c","send.c","recv.c","probe.c","handles.c","cart.c","ic_merge.c"],
 [("separate queues per communicator","comm.c mpi_comm_new"),("queue teardown","comm.c MPI_Comm_free")],[SL,HT],["which receive gets which message, Iprobe flag"])
p("C08","Probing reports the next message and does not disturb anything",
 "MPI_Iprobe reports flag true exactly when a message accepted by the given source and tag is pending on the communicator, and then describes (tag, source, length) the very message that a receive with the same arguments would get next; MPI_Probe does the same or aborts when there is none. Probing any number of times never consumes, reorders or completes anything.",
 ["histories"],"All states of the pending queues, tags and wildcards, repeated probes between any other operations.",
 "Tests probe once in front of a single message and do not look at the length or at the effect on later matching.",
 ["probe.c","list.c"],[("search without removal","probe.c MPI_Iprobe, MPI_Probe")],[SL],["flag, status, subsequent receives"])
p("C09","MPI_PROC_NULL operations complete at once and move nothing",
 "A send to, receive from or probe on MPI_PROC_NULL, blocking or not, in any combination in MPI_Sendrecv, completes immediately without matching, consuming or creating any message and without changing any buffer. Such a receive or probe reports source MPI_PROC_NULL, tag MPI_ANY_TAG and count 0.",
 ["histories","inputs"],"All call flavours with PROC_NULL, any tag/count/datatype, any pending traffic on the communicator.",
 "Tests never use MPI_PROC_NULL.",
 ["send.c","recv.c","probe.c","req.c"],[("early completion","send.c MPI_Isend, recv.c MPI_Irecv")],[SL,RQ],["flag, status, buffers, later matching"])
p("C10","Live handles are distinct, non-null, and reusable only after release",
 "Every communicator, request and derived datatype handle given out is different from the null handle, from MPI_COMM_WORLD and from every other handle currently live of any kind, and keeps denoting the same object until it is released. Released handles may be recycled; any number of objects up to the library's documented maximum (262143) can be live at once in any allocation and release order, and exceeding it aborts with a diagnostic.",
 ["histories"],"All allocation/release orders over communicators, requests and datatypes, with from one to several hundred thousand live objects (across the table's block boundaries).",
 "Tests hold a dozen handles at a time, so the growth path, block boundaries and recycling under load are never run.",
 ["handles.c","comm.c","req.c","type.c"],[("allocation, growth","handles.c mpi_alloc_handle"),("lookup","handles.c mpi_handle_to_ptr"),("release","handles.c mpi_free_handle")],[HT],["handle values, behaviour of the objects they denote"])
p("C11","Datatype constructors describe exactly the specified layout",
 "The sequence of basic elements and byte displacements described by contiguous, vector, hvector, create_hvector, indexed, hindexed, create_indexed_block, struct and dup types is the one their definitions prescribe in terms of the old types' layouts and extents, in order, for any nesting. It holds for any counts and block lengths including 0, any strides and displacements including negative, overlapping, unsorted and larger than 2 GiB. It is what every communication, collective and pack call moves.",
 ["inputs","programs"],"All constructor trees over all predefined types.",
 "Tests build a few small positive-stride types of depth one or two.",
 ["type.c","type.h","copy.c","pack.c"],[("flattening constructor","type.c Type_struct"),("derived constructors","type.c Type_contiguous, Type_hvector, Type_vector, Type_indexed, Type_hindexed, Type_create_indexed_block, Type_dup")],[TM],["bytes moved by MPI_Pack/Unpack/Send/Recv"])
p("C12","Datatype size, bounds and extent follow the layout and the markers",
 "MPI_Type_size is the sum of the basic element sizes; without explicit markers lb is the smallest displacement, ub the largest end of an element, rounded up so that the extent is a multiple of the largest basic element; an explicit MPI_LB or MPI_UB, also one inherited from a component type, replaces the corresponding bound (the smallest LB, the largest UB) at its true, possibly negative, position, and then no rounding applies. Extent always equals ub minus lb, consecutive items of a type are extent bytes apart, and an empty type has size, lb, ub and extent 0.",
 ["inputs"],"All constructor trees, with markers at any level and sign, zero counts, large displacements.",
 "Tests compare size/extent for a few types and a single positive marker pair.",
 ["type.c","type.h"],[("bounds","type.c Type_struct, calc_lb, calc_ub"),("extent and padding","type.c Type_extent, calc_padding")],[TM],["MPI_Type_size, MPI_Type_lb, MPI_Type_ub, MPI_Type_extent"])
p("C13","Datatypes are independent values with safe lifetimes",
 "A derived datatype keeps its meaning when the types it was built from are freed, and a duplicate or derived type and its origin are freed independently. Freeing a type sets the handle to MPI_DATATYPE_NULL, affects no other type, and does not disturb pending operations that use it. A type must be committed before it moves data in communication: a committed type works, an uncommitted one is diagnosed, duplicates inherit the commit state.",
 ["histories"],"All orders of constructing, committing, duplicating, freeing and using types, with handle recycling between them and communication pending.",
 "Tests create, commit and use types and rarely free any; never while pending or used by another type.",
 ["type.c","copy.c","handles.c","send.c","recv.c"],[("deep copy of the typemap on construction","type.c Type_struct, Copy_type"),("release","type.c MPI_Type_free"),("commit check","copy.c Pcopy_data2")],[TM,HT],["later data movement and bounds, handle values"])
p("C14","Pack and unpack are exact inverses within stated bounds",
 "MPI_Pack appends exactly the count*size bytes of the described elements, in order, at the given position and advances the position by that amount, leaving other output bytes alone; MPI_Unpack is its inverse and stores only to described elements. MPI_Pack_size is the exact number of bytes packing needs, written in the caller's integer of the binding used. A pack or unpack that would exceed the stated buffer size terminates with a diagnostic before touching anything beyond it.",
 ["inputs","programs"],"All datatypes, counts (including 0), positions, interleaved packs of different types, exactly-full and one-byte-short buffers, C and Fortran.",
 "Tests pack two or three values of simple types into an ample buffer.",
 ["pack.c"],[("pack loop with bounds check","pack.c Pack"),("unpack loop with bounds check","pack.c Unpack"),("size","pack.c Pack_size")],[TM],["packed bytes, position, outputs around the buffers, termination"])
p("C15","Collectives on the one-process world are exact data movement",
 "Barrier and Bcast succeed and change nothing; Gather(v), Allgather(v), Scatter(v), Alltoall(v,w) move the send data to the receive location given by the receive buffer, counts, displacements (in receive or send extents, bytes for alltoallw) and datatypes; Reduce, Allreduce, Reduce_scatter and Scan with any operation deliver the send data unchanged. Only the described receive elements change, nothing pending point-to-point is affected, and the result is independent of the operation handle.",
 ["inputs"],"All collectives, datatypes including derived ones with gaps, counts, displacements of any sign and size, predefined and user operations, any communicator, any pending traffic.",
 "Tests use small contiguous integer buffers with displacement zero and do not check bytes outside the result.",
 ["collective.c","copy.c","op.c"],[("copy through typemaps","collective.c, copy.c copy_data2"),("displacement scaling","collective.c *v functions")],[TM],["receive buffer and surrounding memory"])
p("C16","MPI_IN_PLACE leaves the data in place, in C and Fortran",
 "Every collective for which MPI defines MPI_IN_PLACE, called with it as send buffer (receive buffer for Scatter and Scatterv), succeeds and leaves the data buffer unchanged, which is the correct one-process result; no memory is read through the placeholder. This holds equally in the C and Fortran bindings.",
 ["inputs"],"All collectives with an in-place form, all counts, displacements, datatypes, both bindings.",
 "Tests contain no in-place collective except in a few gather-type calls.",
 ["collective.c","mpi.c","fort.F90","mpif.h"],[("early return","collective.c"),("Fortran placeholder translation","mpi.c mpi_c_in_place, fort.F90 mpi_get_fort_pointers")],[],["data buffer, termination"])
p("C17","Group operations are the algebra of subsets of one process",
 "Groups behave as the subsets of the single-process group: union, intersection, difference, incl and range_incl, comm_group, comm_create and translate_ranks return what set algebra prescribes on the empty and the full group (rank 0 translates to 0 or MPI_UNDEFINED). MPI_Group_free sets the handle to MPI_GROUP_NULL. Null groups, and inclusions that no one-process group can satisfy, terminate with a diagnostic.",
 ["inputs","histories"],"All combinations and sequences of group operations, with null/empty/full operands and arbitrary rank lists.",
 "Tests call a couple of group operations on the full group.",
 ["group.c","comm.c"],[("case analysis over NULL/EMPTY/ONE","group.c")],[],["resulting group, translated ranks, termination"])
p("C18","Every communicator is a working one-process communicator",
 "MPI_Comm_dup, split (with a defined color), create (with a non-empty group), cart_create, intercomm_create and intercomm_merge return a new communicator of size 1 and rank 0 on which all communication works; split with MPI_UNDEFINED, create with the empty or null group and intercomm_create with two null communicators return MPI_COMM_NULL. MPI_Comm_free sets the handle to MPI_COMM_NULL, and warns on stderr with the right numbers when operations are still pending on it.",
 ["inputs","histories"],"All constructor arguments and sequences of constructions and releases.",
 "Tests duplicate and split once and mostly look at the returned handle only.",
 ["comm.c","cart.c","ic_merge.c"],[("constructors","comm.c, cart.c MPI_Cart_create, ic_merge.c MPI_Intercomm_merge"),("release","comm.c MPI_Comm_free")],[SL,HT],["handle, size, rank, traffic on the new communicator"])
p("C19","The Fortran binding behaves like the C binding",
 "Each documented routine is available from Fortran and does with the same arguments exactly what its C counterpart does, with ierror set to MPI_SUCCESS and only the documented outputs written, in INTEGER (or address kind) size. Constants of mpif.h and module mpi agree with mpi.h; MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE and MPI_IN_PLACE are recognised wherever passed; any/some indices count from 1; handle conversions c2f/f2c are the identity.",
 ["inputs","programs","histories"],"All routines in both bindings, all handle values, histories mixing C and Fortran calls.",
 "The Fortran tests cover a fraction of the routines with typical arguments; several bindings are never called.",
 ["fort.F90","mpif.h","mpif.F90","mpi.h","mpi.c","send.c","recv.c","req.c","collective.c","comm.c","group.c","type.c","pack.c","probe.c","cart.c","op.c","info.c","time.c"],[("wrapper per routine","FC_FUNC definitions in every .c file"),("constant consistency check","mpi.c mpi_init_fort, fort.F90"),("sentinel addresses","fort.F90 mpi_get_fort_pointers, mpi.c")],[],["outputs of the Fortran entry points"])
p("C20","Initialisation and shutdown follow the MPI life cycle",
 "MPI_Init and MPI_Init_thread (C or Fortran) make MPI_COMM_WORLD usable, return success, and Init_thread provides the requested level; MPI_Initialized is false before and true between initialisation and MPI_Finalize. Initialising twice terminates with a diagnostic, MPI_Abort terminates with the given exit code and a message, and MPI_Finalize succeeds with any amount of leftover objects.",
 ["histories","inputs"],"All sequences of life-cycle calls with any number of leftover handles, every thread level and abort code.",
 "Tests initialise and finalise once, with few handles live.",
 ["mpi.c","fort.F90","handles.c"],[("init/finalize/abort","mpi.c MPI_Init, MPI_Init_thread, MPI_Finalize, MPI_Abort"),("handle teardown","handles.c mpi_destroy_handles")],[HT],["return values, flag, exit status, stderr"])
p("C21","Every predefined datatype denotes its language type",
 "Each datatype constant in mpi.h and mpif.h is usable everywhere and has the size, extent, alignment gap and element structure of the C or Fortran type it names, also for the pair types and under non-default Fortran REAL/DOUBLE PRECISION sizes chosen at configuration. Data of that type is moved bit-exactly.",
 ["inputs","configurations"],"All datatype constants, in all constructors, communication and pack calls, for the supported configuration sizes.",
 "Tests use about ten of the 46 constants and the default configuration only.",
 ["type_const.c","type.c","type.h","mpi.h","mpif.h"],[("table indexed by the negated constant","type_const.c simpletypes"),("length switch","type.c Simpletype_length")],[TM],["MPI_Type_size/extent/lb/ub, moved bytes"])
p("C22","Erroneous calls terminate with a diagnostic instead of corrupting",
 "Sends, receives and probes naming a rank other than 0, the wildcards or MPI_PROC_NULL, rooted collectives with a root other than 0 or MPI_ROOT, collectives receiving more elements than sent, communication with uncommitted types, and impossible group or topology requests terminate the program with a non-zero or abort status and a message. They do so before the erroneous operation has moved any data or any object created by the call is used.",
 ["inputs","histories"],"All checked argument errors in every calling context and state.",
 "Tests never make an erroneous call.",
 ["send.c","recv.c","probe.c","collective.c","copy.c","group.c","cart.c"],[("argument checks","send.c, recv.c, probe.c, collective.c, group.c, cart.c"),("commit and over-receive checks","copy.c Pcopy_data2")],[],["termination status, output, buffers"])
p("C23","Cartesian topology queries describe the one-process grid",
 "MPI_Cart_create accepts any number of dimensions of size one and rejects larger grids with a diagnostic; MPI_Dims_create yields all ones; MPI_Cart_coords and MPI_Cart_get report zero coordinates, unit dimensions and the periodicity given at creation (a duplicate has that of its origin), writing exactly the requested number of entries. A rank other than 0 is rejected with a diagnostic.",
 ["inputs"],"All dimension counts (including 0), sizes, periodicities and ranks.",
 "Tests create one small grid.",
 ["cart.c","comm.c"],[("loops over dimensions","cart.c")],[],["output arrays and entries beyond them"])
p("C24","Utility calls give bounded, correct results and success is silent",
 "Error, processor-name and library-version strings are NUL-terminated (blank-padded for the Fortran version string), fit the advertised maxima and have the reported length; the version is 1.0, MPI_Wtime is non-decreasing seconds, addresses are byte addresses, op/info/errhandler calls succeed and leave everything else untouched. Successful calls print nothing, except the pending-operation warning of MPI_Comm_free.",
 ["inputs","histories"],"All error codes, all call sequences.",
 "Tests print the version and ignore the rest.",
 ["mpi.c","time.c","op.c","info.c","error.c","type.c"],[("string functions","mpi.c MPI_Error_string, MPI_Get_processor_name, MPI_Get_library_version"),("stubs","op.c, info.c, error.c")],[],["strings and lengths, stdout/stderr"])
p("C25","Completed work leaves no residue",
 "A program that completes or frees every request, datatype and communicator it creates can repeat that work indefinitely: after each round the library's memory use and the supply of handles are what they were before, in whatever order objects were created, matched and released.",
 ["histories"],"All balanced histories, repeated any number of times.",
 "Tests run each pattern once and never measure memory or handle supply.",
 ["handles.c","list.c","type.c","comm.c","req.c"],[("free-list recycling","handles.c mpi_free_handle"),("list item and list release","list.c AP_list_delete_item, AP_list_free"),("typemap release","type.c MPI_Type_free")],[HT,SL],["heap in use, handle values"])
p("C26","Diagnostic and size options do not change the behaviour of correct programs",
 "Built with the library's internal checking options (CHECKS, TYPE_CHECKING, HANDLE_INFO, config.h present or absent), with other Fortran real sizes, or with another compiler and optimisation level, the library gives correct programs the same results as the default build.",
 ["configurations","programs"],"The supported build options times all histories of correct calls.",
 "The test suite runs one configuration.",
 ["handles.c","list.c","copy.c","mpiP.h","type.h"],[("verify_handle","handles.c"),("list membership check","list.c AP_list_delete_item"),("element type check","copy.c Pcopy_data2")],[HT,SL],["the same observations as the other properties, per build"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
