#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing: python3 tools/props.py"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
I = "code/include/swoc/"
S = "code/src/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


# ---- text
prop("T01", "TextView affix operations partition the view exactly",
     "Every TextView prefix / suffix / take / split / remove / clip operation yields exactly the documented sub-range of the original characters and leaves exactly the documented rest, with a found separator character (and nothing else) dropped, and never touches memory outside the view. Out of range counts and absent delimiters behave as documented (clamp, take all, or leave unchanged for split).",
     ["inputs"], "every text, delimiter character, delimiter set, predicate and offset",
     "the tests use a few fixed strings; the guarantee is about every content, delimiter position and 64 bit offset",
     [I + "TextView.h", S + "TextView.cc"], [("affix methods", "TextView::prefix*, suffix*, take_*, split_*, remove_*, clip_*"), ("delimiter search", "TextView::init_delimiter_set, find_if, rfind_if")])
prop("T02", "TextView trimming, clipping and searching match their definitions",
     "Trimming removes exactly the maximal run of matching characters from the requested end(s), clipping returns exactly that run, searches return the first / last matching position at or after the bound or npos, and affix tests are true exactly when the text has that affix; for every content including bytes above 127, NUL and empty views.",
     ["inputs"], "every text, character set, predicate, affix and offset", "tests sample a handful of ASCII strings",
     [I + "TextView.h", S + "TextView.cc"], [("trimming", "TextView::ltrim*, rtrim*, trim*, clip_*_of"), ("search", "TextView::find_if, rfind_if, starts_with, ends_with")])
prop("T03", "Text to integer conversion is exact and clamps",
     "Converting text to an integer consumes exactly the longest run of digits valid in the base (after blanks, sign and, without an explicit base, a radix prefix), yields the exact value, or the type's maximum (minimum) if it does not fit, and reports exactly the consumed text, which is empty if nothing was parsed.",
     ["inputs"], "every text and base, in particular values around the 64 bit limits in every base",
     "overflow depends on the exact digits near the limit in each of 36 bases; tests try bases 2, 4, 8, 10, 16 and a few limits in base 10",
     [S + "TextView.cc", I + "TextView.h"], [("digit table and overflow clamp", "svtoi_convert, svto_radix, svtou, svtoi")])
prop("T04", "View comparison is a total lexicographic order consistent with equality",
     "Comparison of views (plain and case ignoring, and the LessThan / CaselessEqual functors) is the lexicographic order of the unsigned bytes, with a proper prefix first, zero exactly for identical (up to case) content, including embedded NUL bytes; affix tests ignoring case agree with it.",
     ["inputs"], "every pair / triple of views", "tests compare a few strings for equality only; ordering, transitivity and embedded NULs are never checked",
     [S + "string_view_util.cc", I + "string_view_util.h", I + "TextView.h"], [("comparison", "memcmp / strcmp / strcasecmp of string_view, TextView::LessThan*")])
prop("T05", "Transform views and FNV-1a hashes are exact",
     "A transform view yields exactly the transformed source elements in order and stops at the end of the source, by cursor and by range iteration, reading nothing beyond it. The FNV-1a hashes equal the standard FNV-1a value of the (transformed) octets, no matter how the message is split into updates.",
     ["inputs"], "every message, split and transform", "tests hash a few ASCII literals, which are NUL terminated",
     [I + "TextView.h", I + "ext/HashFNV.h"], [("transform view", "TransformView"), ("hash", "Hash32FNV1a, Hash64FNV1a")])
prop("T06", "Text to double is accurate and consumes exactly the number",
     "svtod consumes exactly the leading [sign] digits [. digits] [e [sign] digits] of the text and reports it as parsed, text without a number yields zero and an empty parsed text; the result is within one epsilon (relative) of the number written, with its sign, for any number of digits and any exponent within the exact powers of ten, reading nothing outside of the text.",
     ["inputs"], "every text and every digit sequence, decimal point and exponent within the bound", "tests compare a few values; accuracy and overflow depend on the digits",
     [S + "TextView.cc", I + "TextView.h"], [("scan and scale", "svtod")])
# ---- memory
prop("M01", "Arena allocations are disjoint, in bounds, aligned and stable",
     "Every span allocated from a MemArena has the requested size (and alignment), lies in memory owned by the arena, does not overlap any other live allocation, and keeps its address and content until the arena is cleared, discarded or destroyed, whatever sequence of allocations, reservations and freezes happens; copied strings are exact copies.",
     ["inputs", "histories"], "every sequence of allocation sizes, alignments, reservations, freezes", "block boundaries and rounding depend on the exact size sequence; tests use a few fixed sequences",
     [S + "MemArena.cc", I + "MemArena.h"], [("block selection and carving", "MemArena::alloc_span, require, make_block, Block::alloc")])
prop("M02", "Arena accounting and lifetime operations are exact",
     "An arena's reported allocated size is the sum of the live allocations, its reserved size at least that; containment is true exactly for arena memory; freezing keeps the frozen allocations valid until thaw, and clear / discard / thaw / move / destruction release exactly the memory they should, each block once.",
     ["histories"], "every short sequence of alloc / freeze / thaw / clear / discard / move", "leaks, double frees and accounting depend on the operation history",
     [S + "MemArena.cc", I + "MemArena.h"], [("accounting", "MemArena::_active_allocated, _frozen_reserved"), ("lifetime", "MemArena::freeze, thaw, clear, discard, destroy_*")])
prop("M03", "Arena backed writer keeps all written text intact across growth",
     "Text written to an ArenaWriter of any sizes is kept complete and in order in the arena across any buffer growth; nothing already written is lost, discarding removes exactly the given tail, and earlier arena allocations are untouched.",
     ["inputs", "histories"], "every sequence of write / commit / discard sizes", "growth happens at sizes that tests do not hit",
     [S + "ArenaWriter.cc", I + "ArenaWriter.h"], [("reallocation on overflow", "ArenaWriter::realloc, write, commit")])
prop("M04", "Fixed arena hands out distinct live objects and reuses destroyed ones",
     "A FixedArena never hands out the memory of an object still live, constructs every made object freshly, and reuses the memory of destroyed ones, for every sequence of make / destroy / clear.",
     ["histories"], "every make / destroy history within the bound", "aliasing depends on the order of destroy and make",
     [I + "MemArena.h"], [("free list", "FixedArena::make, destroy, clear")])
prop("M05", "Memory span sub-ranges are exact",
     "Prefix, suffix, clip, subspan, remove, rebind and element access of MemSpan<T> and MemSpan<void> yield exactly the documented memory range for every offset and count (clamped to the span), and for_each / make / destroy visit exactly the elements once in order.",
     ["inputs"], "every span size, offset, count and element type size used", "tests use a few in-range offsets",
     [I + "MemSpan.h"], [("sub-span arithmetic", "MemSpan<T>::prefix, suffix, clip_*, subspan, remove_*, rebind"), ("void spans", "MemSpan<void const>, MemSpan<void>")])
prop("M06", "Memory span comparison, copy, find and alignment respect the element type",
     "Span equality and ordering compare all of the bytes of the elements, copies move exactly the bytes that fit both sides, searches return the first / last match, and aligning yields the largest sub-span whose start is aligned (and which holds a multiple of the given size); nothing outside the spans is touched.",
     ["inputs"], "every content, size and base address alignment", "tests compare spans of char, for which element count and byte count agree",
     [I + "MemSpan.h"], [("comparison / copy", "MemSpan::operator==, memcmp, memcpy, memset overloads"), ("alignment", "MemSpan<void>::align")])
prop("M07", "Vectray behaves as a sequence across the static / dynamic boundary",
     "A Vectray holds exactly the elements pushed, in order, and iteration, indexing, size, back and pop agree with a plain sequence on every history, whether the elements are in the fixed storage or on the heap; every element is destroyed exactly once and moves transfer all elements.",
     ["histories"], "every sequence of push / emplace / pop / move across the capacity limit", "the switch of storage happens at one size, tests use few histories",
     [I + "Vectray.h"], [("storage switch", "Vectray::FixedStore, DynamicStore, transfer, push_back, pop_back")])
# ---- buffer writer
prop("T07", "Text views cover exactly the given text, and are streamed in full with padding",
     "A view constructed or assigned from an array, a C string, a pointer with a size (negative or npos meaning the length of the C string), a pair of pointers, a string or a container covers exactly those characters, without the terminating nul of a literal and with embedded ones, and a null pointer gives an empty view; the C string and integer overloads of the operations agree with the view ones; writing a view to a stream puts all of its characters and exactly the padding for the width, on the side the alignment flags ask for, and stops at a failed stream.",
     ["inputs"], "every text, array content, size argument, stream width, fill and alignment", "tests construct views from a few literals and stream with one or two widths",
     [I + "TextView.h"], [("construction", "TextView::TextView, operator=, assign"), ("streaming", "TextView::stream_write"), ("overloads", "starts_with, ends_with, ltrim, trim, prefix, suffix")])
prop("U01", "A scoped value change is undone on every exit",
     "While a let guard lives the variable has the given value (the object it came from unchanged if it was not a temporary); when the scope is left, normally, by return or by an exception, at any nesting, the variable has the value it had before the guard, for owning types the very same resource, whatever happened to it meanwhile, and nothing is lost or released twice. An overload set made of several callables (vary) calls exactly the one for the argument type, once; type lists and is_any_of answer membership exactly; case tags select the most specific valid overload.",
     ["inputs", "histories"], "every value, nesting, exit and change in between", "tests guard one integer and one string in one scope without exceptions",
     [I + "swoc_meta.h"], [("guard", "meta::let"), ("overload sets", "meta::vary"), ("type lists", "meta::type_list, is_any_of, is_homogenous")])
prop("B01", "Fixed buffer writer never writes outside its buffer and counts everything",
     "A FixedBufferWriter never writes outside its buffer; its content is exactly the first capacity bytes of everything written, its extent is the total number of bytes written (including what did not fit), and error, remaining, restrict, restore, discard, clear, commit and aux data follow those numbers.",
     ["inputs", "histories"], "every buffer size and sequence of operations with arbitrary counts", "truncation boundaries depend on the exact sizes",
     [I + "BufferWriter.h"], [("bounded writes", "FixedBufferWriter::write, commit, discard, restrict, copy, restore")])
prop("B02", "Formatted output is independent of the capacity up to truncation",
     "Printing into a buffer of any capacity writes exactly the prefix of what an unlimited buffer would hold, with the same extent, for every format specification (width, precision, maximum, alignment, fill) and argument; nothing outside the buffer is touched.",
     ["inputs"], "every capacity, specification, argument value", "tests print into buffers that are large enough",
     [I + "bwf_base.h", S + "bw_format.cc"], [("alignment in place", "bwf::Adjust_Alignment, BufferWriter::print_nfv")])
prop("B03", "Integer formatting is exact for every value and specification",
     "Formatting an integer of any type and value gives exactly its digits in the requested radix and case with sign, radix prefix, fill, width and alignment as specified.",
     ["inputs"], "every 8..64 bit value, signed and unsigned, and specification", "tests print a few values; the extremes of each type and sign / fill combinations are sampled at best",
     [S + "bw_format.cc", I + "bwf_base.h"], [("conversion", "bwf::To_Radix, Format_Integer")])
prop("B04", "Any format string is parsed safely and literal text survives",
     "Parsing any format string terminates without reading outside it, and either reports an error or splits it into literal text and specifiers so that literals (with doubled braces collapsed) are output unchanged and each specifier addresses the argument it names; a specifier that names no argument gives an error marker, not undefined behaviour.",
     ["inputs"], "every format string up to the bound", "tests parse some dozens of well formed strings",
     [S + "bw_format.cc", I + "bwf_base.h"], [("format parser", "bwf::Format::TextViewExtractor, Format, Spec::parse, Spec::Spec"), ("argument lookup", "BufferWriter::print_nfv")])
prop("B05", "Text and memory formatting is exact",
     "Formatting strings, characters, booleans, pointers and memory as text or hexadecimal dumps outputs exactly the documented characters: precision truncates, width pads, case is folded when requested, and every byte of a dump appears as its two digits.",
     ["inputs"], "every content and specification", "tests print fixed strings",
     [S + "bw_format.cc", I + "bwf_base.h"], [("string formatting", "bwformat(BufferWriter &, Spec, string_view)"), ("hex dump", "bwf::Format_As_Hex, As_Hex")])
prop("B06", "Printing to a string yields the complete output and only it",
     "bwprint leaves in the string exactly the complete formatted output, bwappend the previous content followed by it, whatever the previous size and capacity of the string.",
     ["inputs"], "every previous string size and output length", "the resize path depends on the exact capacity",
     [I + "bwf_base.h", I + "bwf_ex.h"], [("retry on overflow", "bwprint_v, bwappend_v")])
prop("B07", "Floating point output is the value rounded to the precision",
     "Formatting a floating point value writes the decimal text of the value rounded to the number of places of the precision (2 by default, only the whole part for 0 places), with all places present, whole values without places and infinities, NaN and zero by name; sign option, width, fill and alignment apply to all of these as for integers, and no precision writes outside of the output.",
     ["inputs"], "every value in the stated families, precision, sign option, alignment, width and fill", "tests print a few values; leading zeros, carries and long precisions depend on the value",
     [S + "bw_format.cc", I + "bwf_base.h"], [("conversion", "Format_Float"), ("padding", "Write_Aligned, Format_Integer")])
# ---- containers
prop("C01", "Intrusive list keeps exactly the inserted elements in order",
     "After any sequence of insertions, erasures, moves and takes an IntrusiveDList contains exactly the expected elements in order, forward and backward traversal, head, tail and count agree, and removed elements are fully unlinked.",
     ["histories"], "every operation sequence within the bound, every position", "tests run a few sequences; link and count errors need particular positions",
     [I + "IntrusiveDList.h"], [("links and count", "IntrusiveDList::prepend, append, insert_*, erase, take_*, splice")])
prop("C02", "Intrusive hash map agrees with a reference multimap",
     "After any sequence of insert, erase and lookup an IntrusiveHashMap contains exactly the inserted elements, iteration visits each once with equal keys adjacent, find / equal_range / count agree with the content, and expansion changes none of this.",
     ["histories"], "every operation sequence and hash collision pattern within the bound", "bucket bookkeeping depends on collision patterns and on expansion during use",
     [I + "IntrusiveHashMap.h"], [("bucket chains", "IntrusiveHashMap::insert, erase, find, equal_range, expand, Bucket")])
prop("C03", "Lexicon maps names and values consistently",
     "A Lexicon returns for every defined name (ignoring case) its value and for every value its primary name, defaults or throws as configured for anything else, and all definitions stay reachable after any number of them, copies or moves.",
     ["inputs", "histories"], "every set of definitions and lookups within the bound", "tests define fixed name sets",
     [I + "Lexicon.h"], [("dual hash maps", "Lexicon::define, operator[]")])
prop("C04", "Discrete range algebra equals point set algebra",
     "Contains, intersects, adjacency, intersection, hull, clipping, ordering and relationship predicates of DiscreteRange agree with the sets of points of the ranges, for every pair of ranges including empty, singleton and full ranges at the extremes of the metric.",
     ["inputs"], "every pair of ranges over the metric", "the extremes of the metric (wraparound) and touching edges are not sampled",
     [I + "DiscreteRange.h"], [("range algebra", "DiscreteRange operators")])
prop("C05", "Discrete space mark, fill and erase act pointwise",
     "After any sequence of mark (overwrite), fill (only uncoloured) and erase over any ranges, looking up any point gives exactly the payload of the last applicable operation, iteration yields disjoint ascending ranges that cover exactly the coloured points, and the count agrees.",
     ["histories", "inputs"], "every sequence of operations with arbitrary ranges (also at the extremes) within the bound", "overlap cases grow combinatorially; tests sample some",
     [I + "DiscreteRange.h", I + "RBTree.h", S + "RBTree.cc"], [("range splitting / coalescing", "DiscreteSpace::mark, fill, erase, find")])
prop("C06", "Discrete space blend acts pointwise",
     "Blending a colour into a range applies the blender exactly once to the payload of every coloured point in the range and the plain colour to uncoloured points, removes the points for which the blender says so, and leaves all points outside the range unchanged.",
     ["histories", "inputs"], "every blend over every short history of marks within the bound", "overlap and coalescing cases grow combinatorially",
     [I + "DiscreteRange.h"], [("blending", "DiscreteSpace::blend")])
prop("C07", "Red-black tree keeps order and balance",
     "After any sequence of insertions and removals the tree keeps in-order links, parent links, node order and the red-black balance conditions.",
     ["histories"], "every insertion / removal order within the bound", "rebalancing cases depend on the order",
     [S + "RBTree.cc", I + "RBTree.h"], [("rebalancing", "RBNode::rebalance_after_insert, rebalance_after_remove, remove")])
prop("C08", "Scaled integers convert and compare exactly with the documented rounding",
     "Scalar construction, conversion between scales (rounding up, down or exact), arithmetic, comparison and increment give exactly the mathematical result in units, with rounding in the documented direction and no precision lost in comparison.",
     ["inputs"], "every count within the bound and scale pair", "tests use a few values and scales",
     [I + "Scalar.h"], [("scale conversion", "detail::scale_conversion_round_up / down, Scalar operators")])
# ---- IP
prop("I01", "IPv4 address text conversion is exact",
     "An IPv4 address prints to text that parses back to the same address; parsing accepts exactly the documented forms, gives the right value, and rejects every other text without touching memory outside it.",
     ["inputs"], "every address and every text within the bound", "tests parse some dozens of texts",
     [S + "swoc_ip.cc", S + "bw_ip_format.cc", I + "IPAddr.h"], [("parser", "IP4Addr::load"), ("formatter", "bwformat(in_addr_t / IP4Addr)")])
prop("I02", "IPv6 address text conversion is exact",
     "An IPv6 address prints to text that parses back to the same address; parsing accepts the standard hexadecimal forms with at most one zero compression, gives the right value, and rejects other text without touching memory outside it.",
     ["inputs"], "every zero pattern of addresses and every text within the bound", "zero compression has many patterns; tests parse some",
     [S + "swoc_ip.cc", S + "bw_ip_format.cc", I + "IPAddr.h"], [("parser", "IP6Addr::load"), ("formatter", "bwformat(in6_addr / IP6Addr)")])
prop("I03", "Address ordering and arithmetic equal those of the integers they represent",
     "IPv4 and IPv6 addresses compare, increment, decrement, mask, shift and index bytes / quads as the 32 and 128 bit unsigned integers they represent; the family independent address orders consistently and is a strict total order.",
     ["inputs"], "every address (pair) and shift amount", "carry across the 64 bit words needs particular values",
     [I + "IPAddr.h", S + "swoc_ip.cc"], [("two word arithmetic", "IP6Addr::operator++, <<=, >>=, &=, |=, comparison"), ("family independent", "IPAddr comparison")])
prop("I04", "Network masks convert between width, address and text exactly",
     "A mask of any width is the address with exactly that many leading one bits; masking, mask text parsing, mask of an address or range and width queries agree with that for both families, and invalid text or widths are rejected.",
     ["inputs"], "every width, address and mask text", "tests use a few widths",
     [I + "IPAddr.h", S + "swoc_ip.cc"], [("mask", "IPMask, IP4Addr::operator&=, IP6Addr::mask")])
prop("I05", "Address ranges parse and compute as intervals of addresses",
     "IPv4, IPv6 and family independent ranges loaded from text (single address, a-b, network/width) denote exactly that interval, are rejected otherwise, print to text that loads back to the same range, and contain / intersect / join as intervals.",
     ["inputs"], "every range text within the bound and every interval", "tests parse a few dozen ranges",
     [I + "IPRange.h", S + "swoc_ip.cc", S + "bw_ip_format.cc"], [("range parser", "IP4Range::load, IP6Range::load, IPRange::load"), ("interval operations", "IPRange, DiscreteRange")])
prop("I06", "Range to networks decomposition is an exact minimal cover",
     "Iterating the networks of any address range yields ascending, disjoint, properly aligned networks whose union is exactly the range, and none of which could be larger; iteration terminates, also at the top of the address space.",
     ["inputs"], "every range of either family (decomposition length within the bound)", "edge widths and the top of the address space need particular values",
     [I + "IPRange.h", S + "swoc_ip.cc"], [("network source", "IP4Range::NetSource, IP6Range::NetSource, IPRangeView::NetSource")])
prop("I07", "Networks are an aligned address plus a width",
     "A network holds the address with all host bits cleared; its lower bound, upper bound, containment, range conversion, equality and text form agree with that for every address, mask width and text, and invalid text is rejected.",
     ["inputs"], "every address, width and network text within the bound", "tests use a few networks",
     [I + "IPRange.h", S + "swoc_ip.cc"], [("network", "IP4Net, IP6Net, IPNet")])
prop("I08", "Service (address and port) text is split and converted exactly",
     "Address and port text (bracketed or bare IPv6, IPv4, host names, missing ports) is tokenized into exactly its parts without reading outside it; loading gives exactly that address and port or fails, and printing loads back to the same service.",
     ["inputs"], "every service text within the bound and every address / port", "tests use a table of texts",
     [I + "IPSrv.h", I + "IPEndpoint.h", S + "swoc_ip.cc"], [("tokenizer", "IPEndpoint::tokenize, parse"), ("service", "IP4Srv, IP6Srv, IPSrv load")])
prop("I09", "Socket address conversions keep family, address and port",
     "Conversion between addresses, services, endpoints and sockaddr structures preserves family, address and port (with host / network order swapped exactly once) for every value, copies no more than the structure's size, and invalid families are rejected.",
     ["inputs"], "every address, port and family value", "tests use a few addresses",
     [I + "IPEndpoint.h", I + "IPSrv.h", I + "IPAddr.h", S + "swoc_ip.cc"], [("conversions", "IPEndpoint::assign, set_to_*, host_order_port, IPAddr(sockaddr), fill_to / copy_to")])
prop("I10", "IP space maps every address to the payload of the last operation covering it",
     "After any sequence of mark / fill / erase / blend over ranges of both families an IPSpace finds for every address exactly the expected payload, keeps the families separate, iterates the ranges in address order with IPv4 first, and counts them correctly.",
     ["histories", "inputs"], "every operation sequence with arbitrary ranges within the bound", "as for discrete spaces, with 128 bit metrics and both families",
     [I + "IPRange.h", I + "DiscreteRange.h"], [("space", "IPSpace"), ("iteration across families", "IPSpace::const_iterator")])
prop("I11", "Address classification matches the reserved ranges",
     "is_any, is_loopback, is_multicast, is_private and is_link_local are true exactly for the addresses in the corresponding reserved ranges, and agree between all representations of an address (address types, raw sockaddr, endpoint).",
     ["inputs"], "every address", "tests sample a few addresses inside and outside",
     [I + "IPAddr.h", I + "swoc_ip_util.h", I + "IPEndpoint.h", S + "swoc_ip.cc"], [("predicates", "IP4Addr / IP6Addr / IPAddr / swoc_ip_util predicates")])
# ---- errata
prop("E01", "Errata keeps every note in order with the maximum severity",
     "An Errata contains exactly the notes added (from text, formats, other Errata or codes) in order with their severities and text, its severity is the maximum of the set ones (subject to the filter), and is_ok / code queries follow; each note's text stays intact.",
     ["histories"], "every sequence of additions and severities within the bound", "tests build a few Errata",
     [S + "Errata.cc", I + "Errata.h"], [("annotations", "Errata::note_s, note_sv, note(Errata), update"), ("severity", "Errata::is_ok, severity")])
prop("E02", "Errata moves transfer, clear empties and sinks fire once",
     "Moving an Errata transfers all content and leaves the source empty, clear and destruction release everything exactly once, sinks are called exactly once per non-empty instance, and the result pair keeps value and Errata together through moves.",
     ["histories"], "every sequence of move / assign / clear / sink within the bound", "lifetime errors need particular sequences",
     [S + "Errata.cc", I + "Errata.h"], [("ownership", "Errata move, clear, sink"), ("Rv", "Rv")])
# ---- file
prop("F01", "Path manipulation is purely lexical and exact",
     "Appending to a path gives the left path, exactly one separator where they meet, and the right path, or the right path alone if it is absolute or the left one is empty (the left one alone if the right one is empty), also if the appended text is part of the path itself. The file name is what is after the last separator, the parent what is before it (the root for entries of the root, nothing for a single element), the relative path what is after the root; a path is absolute exactly if it starts with a separator, paths compare and hash as their text and print as their text.",
     ["inputs"], "every path text within the bound", "tests use a few paths; appending a path to itself reads released memory only for long paths",
     [S + "swoc_file.cc", I + "swoc_file.h"], [("path", "file::path methods and operator/")])
prop("F02", "File load and copy are complete or report an error",
     "Loading a file returns exactly its content or an error; copying leaves the destination with exactly the source's content (replacing what was there, and leaving the source as it is even if it is the destination) and nothing else changed, or reports an error; for every file size, short read and write, and failing system call. Every descriptor opened is closed exactly once; a unique_fd closes what it owns, once.",
     ["inputs", "fault_sequences"], "every file content, chunking of reads and writes, and failing call within the bound", "faults and short transfers never happen in the tests, and copy is not tested at all",
     [S + "swoc_file.cc", I + "swoc_file.h"], [("load / copy", "file::load, file::copy"), ("descriptor ownership", "file::unique_fd")])
prop("F03", "Directory creation and removal act on exactly the named tree",
     "Creating directories creates exactly the missing components with the mode asked for, or reports an error; removing a tree removes exactly that tree and nothing outside it (symbolic links are removed, not followed), returns the number of removed entries and an error if anything remains; removing a single entry removes just that and reports whether it did. An error from before the call is never reported.",
     ["inputs", "fault_sequences"], "every small directory tree and failing call within the bound", "faults and links are not exercised by the tests",
     [S + "swoc_file.cc"], [("tree operations", "file::create_directory, create_directories, remove_all, remove")])
prop("F04", "File queries report exactly what the system reports",
     "The status of a file has exactly the type, mode, size and times of the system's answer, or the system's error code and no type, in which case the file does not exist; absolute and canonical paths are absolute, refer to the same item, and are empty with an error if there is none; the current directory is returned for every length, the temporary directory is the first of TMPDIR, TMP, TEMP, TEMPDIR that is set, else /tmp. Memory the system allocates for an answer is released.",
     ["inputs", "fault_sequences"], "every mode, size, time and errno; every failing call", "the tests query a few existing files and never fail a call",
     [S + "swoc_file.cc", I + "swoc_file.h"], [("status", "file::status, file_status, last_write_time, access_time, status_time"), ("locations", "file::absolute, canonical, current_path, temp_directory_path")])

NOT = {}  # id -> reason the property is not claimed
NOTES = {}


def main():
    import vf
    hs = vf.parse_harnesses()
    have = {}
    for n, h in hs.items():
        for e in h["entries"]:
            for p in e["props"]:
                have.setdefault(p, []).append(e)
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    assert set(have) <= set(ids), set(have) - set(ids)
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in have:
            b = "; ".join(e["bounds"] for e in have[i] if "q" in e["tier"])
            checks.append(dict(property=i, quick_cmd=f"python3 bin/vf.py check {i} quick", thorough_cmd=f"python3 bin/vf.py check {i} thorough",
                               technique="symbolic execution of the LLVM IR of the real code, assertions decided by a bit-vector SAT/SMT solver",
                               level="model_checking",
                               level_note=NOTES.get(i, "Bounded: holds for all values within the stated bounds (" + b + "). Trusts clang's IR at -O1, the engine (cross-checked by native replay of sampled paths and by Z3 on sampled queries), the C / C++ runtime model in rt/, and single threaded execution.")))
        else:
            na.append(dict(property=i, reason=NOT.get(i, "not built yet")))
    m = dict(version=1, setup_cmd="python3 bin/vf.py setup", hooks=dict(guard="VF_HOOKS", enable="no hooks are needed: the checks compile /repo's sources unchanged", source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    print(len(checks), "claimed;", [x["property"] for x in na])


main()
