"""The property table: everything MANIFEST.json and properties.jsonl say comes from here (tools/gen.py)."""

PROPS = {}
NOT_APPLICABLE = {}

TRUST = ("Trusts rustc's MIR, the extractor in /verif/driver and the abstract interpreter with its models of std functions. "
         "Obligations the analysis cannot settle are listed as undecided in the evidence and raise no alarm.")


def prop(id, title, statement, over, quant, why, files, mech, groups, technique, level="proof", explain=None, assume=(), note=None, keys=None, observe=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                     groups=groups, technique=technique, level=level, explain=explain or technique, assume=list(assume),
                     note=(note + " " if note else "") + TRUST, keys=keys, observe=observe or [])


def na(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                              mech=mech, reason=reason, observe=[])


AI = "abstract interpretation of MIR (relational domain over words, bits and linear terms; trace partitioning)"
AIT = "abstract interpretation of MIR (relational domain over words; texts as sequences of symbolic pieces decided by finite automata)"

prop("C01", "Address byte and group representations are big-endian and invertible",
     "For every IPv4 and IPv6 address value, its byte list has 4 respectively 16 entries in network order, an address built from a byte list is "
     "the big-endian value of those bytes, and a list of any other length is rejected. The same holds for the eight 16-bit groups of an IPv6 address.",
     ["inputs"], "all 2^32 IPv4 and 2^128 IPv6 addresses; all byte and group lists of every length",
     "Unit tests touch these conversions only indirectly, on a few dozen addresses.",
     ["src/addr.rs"], [("to_bytes/from_bytes per address type", "src/addr.rs"), ("to_chunks/from_chunks", "src/addr.rs")],
     ["bytes"], AI)

prop("C02", "Bitwise operations, bit counts and address order agree with the integer value",
     "For every pair of addresses of one family, AND, OR, XOR and complement act bit by bit on the full-width value, the counts of set and clear bits "
     "are exact and add up to the width, and comparison and equality coincide with those of the big-endian integers.",
     ["inputs"], "all pairs of addresses of either family",
     "Tests do not exercise the operators directly, and no sample can cover every bit position of both 64-bit halves.",
     ["src/addr.rs"], [("BitAnd/BitOr/BitXor impls, bitwise_negate, count_ones, count_zeros", "src/addr.rs"), ("derived or written Ord/Eq", "src/addr.rs")],
     ["bitops", "bitcount", "order"], AI)

prop("C04", "Address addition and subtraction are exact and fail exactly on overflow",
     "For all addresses a and b and every 32-bit signed offset k, a+b, a-b, a+k and a-k yield the exact integer result when it lies in the address space, "
     "and no result otherwise; none of them panics.",
     ["inputs"], "all address pairs and all i32 offsets, both families",
     "The tests use small offsets away from the 64-bit boundary; carries, borrows and extreme offsets are unreached.",
     ["src/addr.rs"], [("add_addr/subtract_addr/add_offset/subtract_offset", "src/addr.rs")],
     ["arith"], AI)

prop("C05", "Prefix lengths and subnet masks correspond one to one",
     "For each width, a prefix length p up to the width yields the mask of p leading ones and larger values saturate, and a mask maps back to the prefix "
     "length exactly when all its ones precede all its zeros; every other mask has no prefix length.",
     ["inputs"], "all prefix lengths; all 2^32 and 2^128 masks",
     "The tests sample a few masks; mixed masks are a 2^128-element set in which a wrong table row is visible only for specific bytes.",
     ["src/cidr.rs"], [("subnet_mask_bytes_from_prefix", "src/cidr.rs"), ("prefix_from_subnet_mask_bytes", "src/cidr.rs")],
     ["cidr_mask", "cidr_prefix"], AI)


prop("C06", "Unravel and weave are one bit permutation and its inverse",
     "For every mask, unraveling an address moves the bits selected by the mask to the front and the others behind them, keeping the order inside either "
     "class, and weaving with the same mask is the exact inverse; neither depends on bit values, and both cope with every mask and never panic.",
     ["inputs"], "all addresses and masks of either width",
     "The tests use a handful of masks and values; the placement of a bit depends on the number of mask bits before it, a 2^128-element space.",
     ["src/bit_manip.rs"], [("unravel_address / weave_address", "src/bit_manip.rs")],
     ["perm"], AI)

prop("C07", "A network's base address, mask, wildcard and prefix length are consistent",
     "Every network built from an address and a mask or prefix length has base address = address AND mask, wildcard = complement of the mask, and a prefix "
     "length exactly when the mask is contiguous, equal to its number of ones. The strict constructors accept exactly addresses without host bits.",
     ["inputs"], "all addresses with all masks and prefix lengths of their family",
     "Tests check chosen networks; host bits, mixed masks and extreme prefixes are combinatorially many.",
     ["src/net.rs"], [("IpNetwork constructors and accessors", "src/net.rs")],
     ["net_ctor"], AI)

prop("C08", "Network membership, inclusion and intersection are exact for all masks",
     "An address is reported as contained in a network iff it agrees with the base address on every mask bit; one network is reported a superset of another "
     "iff every address of the latter is contained in the former; subset is the converse; two networks are reported to intersect iff some address is contained in both. "
     "This holds for contiguous and mixed masks alike.",
     ["inputs"], "all networks and addresses, all pairs of networks, both families",
     "Tests compare a few pairs; the mask-inclusion condition matters only for particular pairs.",
     ["src/net.rs"], [("contains, is_superset_of, is_subset_of, intersects", "src/net.rs")],
     ["net_rel", "net_meet"], AI)

prop("C09", "First host, last host, broadcast and next network are right for every mask",
     "With h host bits, first and last host exist iff h >= 2 and the broadcast address iff h >= 1; they are the base with the least significant host bit set, "
     "all host bits but that one set, and all host bits set. The next network's base is the following value of the mask bits, absent iff there is none.",
     ["inputs"], "all networks with contiguous and mixed masks, both families",
     "Tests fix a few masks; thresholds and the end of the address space depend on inputs no sample covers.",
     ["src/net.rs", "src/bit_manip.rs"], [("first_host_addr, last_host_addr, broadcast_addr, last_addr_of_subnet, next_subnet_base_addr", "src/net.rs")],
     ["net_derived"], AI)

prop("C10", "Address and host counts are exact powers of two for every mask",
     "The address count of a network is 2^h where h is the number of host bits of its mask, wherever they are, and its host count is the address count "
     "minus two (so -1 and 0 for the two smallest sizes), as exact integers of any size, for both families; computing them never panics.",
     ["inputs"], "all contiguous and mixed masks of either width",
     "Tests check a few sizes; a wrong byte or an overflow at 2^64 or 2^128 shows only for particular masks.",
     ["src/net.rs"], [("address_count, host_count", "src/net.rs")],
     ["count"], AI)

prop("C03", "IPv4 text: dotted-quad form, accepted exactly, read and written consistently",
     "A text without plus signs is accepted as an IPv4 address iff it has exactly four dot-separated parts, each one or more decimal digits with a value of at most 255; it then "
     "denotes the big-endian value of the four numbers. Every address is displayed as its four bytes in decimal without leading zeros, and that text reads back as the same address.",
     ["inputs"], "all texts without '+' with any number of dots; all 2^32 addresses",
     "Tests parse a few well-formed addresses; the rejected texts are an infinite set.",
     ["src/addr.rs"], [("FromStr and Display for the IPv4 address", "src/addr.rs")],
     ["parse4", "disp4", "round4"], AIT)

prop("C11", "IPv6 text: colon-hex form, accepted exactly, canonical when written",
     "A text without plus signs is accepted as an IPv6 address iff it has eight colon-separated groups of hex digits with value at most ffff, or one '::' and at most seven "
     "groups, with no other empty group; '::' stands for the missing zero groups. Display uses lower-case hex without leading zeros and replaces the leftmost longest "
     "run of zero groups (even a single one) by '::'. Every displayed address reads back as itself. The full form has eight groups of four lower-case digits.",
     ["inputs"], "all texts without '+' with any number of colons and every pattern of empty groups; all 2^128 addresses",
     "Tests parse a few addresses; the 256 zero-group patterns and the malformed texts cannot be sampled exhaustively.",
     ["src/addr.rs"], [("FromStr, Display and to_full_string of the IPv6 address", "src/addr.rs")],
     ["parse6", "disp6", "round6", "full6"], AIT)

prop("C12", "Network specifications: an address with a mask, prefix or wildcard",
     "A network specification is accepted iff it is an address text, a slash, an optional '-' and either an address text of the same family (a mask) or decimal digits with a value "
     "of at most the address width (a prefix). It yields that address and the network whose mask is the given mask (complemented after '-') or has the given number of leading "
     "one bits (width minus it after '-'), base address and prefix length included. Upper-case IPv6 digits are left open.",
     ["inputs"], "all texts without upper-case IPv6 addresses: any number of slashes, dashes, digits and leading zeros",
     "Tests parse a few dozen specifications; boundary prefixes, digit overflow and near-miss texts form infinite sets.",
     ["src/cmds/mod.rs", "src/net.rs"], [("parse_netspec and its regular expressions", "src/cmds/mod.rs")],
     ["netspec"], AIT)

prop("C13", "Address, mask and specification-list arguments are read exactly, by family",
     "An argument without '+' read as an address is accepted iff it is an IPv4 or IPv6 address text, with that family and value; read as a mask or prefix it may also be a decimal "
     "number. A list of specifications is rejected only if one of them is bad, is reported as mixed only if both families occur, and otherwise (every entry good, one family) yields "
     "every address and network once, in order, under that family.",
     ["inputs"], "all texts without '+'; lists of up to four specifications of arbitrary content and family",
     "Tests never call these functions with bad, duplicate or mixed entries; where in the list the odd entry sits matters.",
     ["src/cmds/mod.rs"], [("parse_addr, parse_subnet, parse_same_family_netspecs", "src/cmds/mod.rs")],
     ["argparse", "speclist"], AIT)

prop("C14", "The network report states true values under the right labels, colour or not",
     "For every network and address, each report line shows the value its label names (address, netmask with prefix, wildcard, network, first and last host, broadcast, host count and "
     "IPv4 class), or says that there is none, followed by the same value in binary, padded to fixed columns. With styling removed the text is the same whatever the colour "
     "settings; all of it goes to standard output.",
     ["inputs", "configuration"], "all networks (contiguous and mixed masks) and addresses of both families, colours on and off",
     "No test looks at the report; labels, thresholds and class boundaries depend on the mask.",
     ["src/cmds/show_net.rs", "src/console.rs", "src/net.rs"],
     [("output_ipv4_network/output_ipv6_network/output_binary_*", "src/cmds/show_net.rs"), ("write_in_color", "src/console.rs"), ("Display for IpNetwork", "src/net.rs")],
     ["padding", "binary", "netdisp", "report"], AIT)

prop("C15", "Bytes, bits and binary text convert into each other, most significant bit first",
     "A list of n bytes becomes 8n bits, most significant first, and a binary text of 8n digits in the same order; a list of bits becomes its bytes, the last one filled with zero bits.",
     ["inputs"], "byte lists of length 0 to 8, 16 and 17, and bit lists of length 0 to 41 and 128, of arbitrary content",
     "Tests convert a couple of fixed lists; ragged lengths and every bit position are not sampled.",
     ["src/bit_manip.rs"], [("bytes_to_bits, bytes_to_binary, bits_to_bytes", "src/bit_manip.rs")],
     ["bits"], AIT)

prop("C16", "A range of addresses becomes the exact list of largest networks",
     "For every two addresses of one family, in either order, the range between them (both ends included) is turned into a list of networks in ascending order that follow each other without "
     "gap or overlap, start at the smaller and end at the larger address, and are each as large as alignment and the range permit. It never panics, "
     "even for ranges that reach the end of the address space or span all of it.",
     ["inputs"], "all pairs of addresses of either family",
     "Tests derange four ranges; alignment at both ends and the end of the address space give 2^64 respectively 2^256 cases.",
     ["src/cmds/derange.rs"], [("range_to_subnets", "src/cmds/derange.rs")],
     ["derange"], AI + " with loop invariants over ghost variables")

prop("C17", "Enumeration lists every address of every given network once, in order",
     "enumerate prints, one per line and for one specification after the other, each address of the network exactly once, in ascending host order (for mixed masks: network bits taken "
     "out, host bits counted up), including networks that end at the end of the address space and single addresses. A specification that cannot be parsed is reported on "
     "standard error and makes the status 1 without keeping the others from being listed; otherwise the status is 0 and standard error stays empty.",
     ["inputs", "histories"], "all pairs of specifications, each bad or a network of either family with any contiguous or mixed mask; longer lists by instances (three with bad ones among them, ten)",
     "Tests step an iterator through four networks; they never run the command and never reach the end of the address space.",
     ["src/cmds/enumerate.rs", "src/bit_manip.rs"], [("enumerate, NetworkIter", "src/cmds/enumerate.rs")],
     ["enumerate"], AI + " with loop invariants over ghost variables")

prop("C18", "Resizing keeps host order: one larger or equal network, or all the smaller ones",
     "For every network and new mask of its family: with more host bits than before the result is the one network of the new mask whose network bits are the leading network bits of the old one; "
     "with equally many, the one network with the same network bits; with fewer, all 2^(difference) networks of the new mask, in ascending host order, none missing "
     "and none beyond the original network. The result says which case it is; nothing panics, at the end of the address space either.",
     ["inputs"], "all networks and masks, contiguous and mixed, of both families",
     "Tests resize two networks to five masks; the positions of host bits in both masks give 2^64 respectively 2^256 combinations.",
     ["src/cmds/resize.rs", "src/bit_manip.rs", "src/net.rs"], [("resize_network", "src/cmds/resize.rs")],
     ["resize"], AI + " with loop invariants over ghost variables")

prop("C19", "Minimizing keeps the addresses and leaves the shortest ordered list",
     "Minimizing a list of networks yields a list that covers exactly the same addresses, ordered by base address and then mask, without duplicates, whatever the order of the "
     "input and of hash containers. If all masks are contiguous, the result is the shortest list of contiguous networks for those addresses. With mixed masks, no two "
     "networks of equal mask are left that differ only in their lowest network bit, and no network is left that another one contains. It never panics.",
     ["inputs"], "runs of 27 and 32 neighbouring networks; lists of up to 14 networks whose base addresses agree, up to one distant bit, in all but three neighbouring bits (at three to six positions, including the two ends of the "
     "address and the middle of an IPv6 address), everything above being arbitrary: all lists of length up to two and a spread of longer ones, both families, both orders of hash iteration",
     "Tests minimize four lists; the result depends on how the networks are placed relative to each other and to the power-of-two boundaries.",
     ["src/cmds/minimize.rs", "src/net.rs"], [("minimize_subnets", "src/cmds/minimize.rs"), ("is_superset_of, next_subnet_base_addr", "src/net.rs")],
     ["minimize"], "abstract interpretation of the compiled program (MIR) with symbolic high address bits, on enumerated list shapes")

prop("C20", "Splitting gives every request the smallest sufficient network, without gaps",
     "split gives each requested host count the smallest network that has at least as many host addresses (a /31 counts as none). The networks are placed one after the other, larger ones "
     "first, from the start of the network that is split on (from its first address aligned to the largest one, if that is larger than the network), and are "
     "reported in the order of the requests. It refuses (status 1) exactly if no network is large enough or the address space ends before all are placed, and says \"Network is too small\" exactly if one of them "
     "is not inside the network; otherwise it lists as unused exactly the range that remains. Bad counts or specifications are reported on standard error with status 1.",
     ["inputs"], "parents with a contiguous mask and any base address; any one or two host counts that need given prefix lengths, and a spread of lists of three to twelve",
     "Tests split two networks; placement depends on the order of requests, equal counts, alignment and the ends of network and address space.",
     ["src/cmds/split.rs", "src/net.rs"], [("split, output_split, split_subnet", "src/cmds/split.rs")],
     ["split"], "abstract interpretation of the compiled program (MIR) with symbolic addresses and host counts, on enumerated lists of needed sizes")

prop("C21", "Options select the commands; misuse is reported and makes the status 1",
     "The first argument alone selects what is done: -m or --minimize, -d or --derange, -s or --split, -r or --resize, -e or --enumerate, in exactly this spelling, select these commands, "
     "--help shows the usage, which names all of them, with status 0, --color-test each colour under its name, and any other first argument is taken as the first specification to report on. Without arguments, with the wrong number of arguments for a command, "
     "with a first argument that is neither an option nor a specification, or with an argument that is not valid Unicode (enumerate lists the others all the same), nothing is written to standard output, something is written to standard error, and the status is 1. The status of the "
     "process is that of the command. None of this panics.",
     ["inputs"], "all first arguments; zero to four further arguments (any texts)",
     "No test runs the program as a whole; the arguments are arbitrary texts.",
     ["src/main.rs", "src/cmds/derange.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/enumerate.rs", "src/cmds/minimize.rs"],
     [("main, do_main, usage", "src/main.rs"), ("argument checks of each command", "src/cmds/*.rs")],
     ["cli_main", "cli_options"], AI + ", texts by automata")

prop("C22", "Commands print each result once and in order, or one error and status 1",
     "Reports: one per specification, in the order given, on its address and network, separated by blank lines. minimize: the networks of the minimized list of all specifications, one per line in order; "
     "specifications of both families are an error. derange: the networks of the range between the two addresses, one per line in order; addresses of different families are an error. resize: "
     "\"Original network:\" and its report, then a report per resulting network in order, each under \"Supernet:\", \"Same-sized net:\" or \"Subnet N:\" (N from 1) and followed by a blank line; the new mask is a prefix length up "
     "to 32 (IPv4) or 128 (IPv6) or a mask of the same family, and anything else is an error. Success means status 0 and nothing on standard error; an error means status 1, a message on standard error and "
     "nothing on standard output; an argument quoted in the message is one that was not understood. Nothing panics.",
     ["inputs", "histories"], "one to three specifications, each bad or any network of either family, and forty good ones; any pair of addresses; any network with any number, any mask or a bad text; minimized lists of "
     "up to three networks and of forty, ranges of up to three and of 62, resizing into one, two, four or 512",
     "Tests call the algorithms directly and never the commands, so order, errors and statuses are not covered.",
     ["src/cmds/show_net.rs", "src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/resize.rs", "src/cmds/mod.rs"],
     [("show_net", "src/cmds/show_net.rs"), ("minimize, parse_same_family_netspecs", "src/cmds/minimize.rs, src/cmds/mod.rs"), ("derange", "src/cmds/derange.rs"), ("resize, resize_and_output", "src/cmds/resize.rs")],
     ["cli_show", "cli_minimize", "cli_derange", "cli_resize"], AI + " of whole invocations, from the arguments to output and status")

prop("C23", "Colours show which bits belong to the network and which to the host",
     "In the binary column of the lines Address and Network, each bit that the mask selects is shown in green and every other one in yellow; on the Network line of an IPv4 network whose mask "
     "covers the bits that its class is read from (0, 10, 110, 1110 or 1111), these bits are in magenta instead. The bits of the Netmask line are all red, those of the other lines all yellow. Each colour "
     "name stands for one terminal colour (the dark ones normal, Gray white and DarkGray bright black, the others bright), used exactly if colours are on.",
     ["inputs", "configuration"], "all networks (contiguous and mixed masks) and addresses of both families",
     "No test looks at colours; which bit gets which depends on every bit of the mask.",
     ["src/cmds/show_net.rs", "src/console.rs"], [("output_binary_ipv4_address/output_binary_ipv6_address, output_network", "src/cmds/show_net.rs"), ("write_in_color", "src/console.rs")],
     ["colours"], AIT)
