"""Which functions carry which property.

own:   functions whose contracts state (part of) the property; a failed obligation here is a violation.
deps:  functions the proof of the own functions relies on; they are verified too, but a failed obligation here is
       a violation of this property only together with a failing input (their own properties report them).
bins:  programs of /verif/replay that exercise the property on the compiled crate.
Patterns are regular expressions over the function keys the extractor writes into its map.
"""

PRIM = r"bit_vec/(u8|u16|u32|u64|usize)"
WORDS = r"bit_vec/\[usize\]"
WRAP = r"bit_vec/(&T|&mut T|Box|Rc)"
ACC = r"(get_bit|set_bit|flip_bit)(_unchecked)?"
ACC_SLICE = r"bit_vec/BitSlice::(get|set|flip)(_unchecked)?"
TR = r" as (BitGet|BitModify)::"

PROPS = {
    "C01": dict(
        own=[
            r"bit_vec/BitVec::new",
            r"bit_vec/BitVec" + TR + ACC,
            r"bit_vec/BitVec as (Deref|DerefMut|Clone|AsMut<BitSlice>|AsRef<BitSlice>)::\w+",
            r"bit_vec/BitSlice" + TR + ACC,
            ACC_SLICE,
            r"bit_vec/BitSlice::(new|len|is_empty)",
            r"bit_vec/BitSlice as Clone::clone",
        ],
        deps=[r"client/c01_\w+", WORDS + TR + ACC, r"bit_vec/Box" + TR + ACC, r"bit_vec/&mut T" + TR + ACC, r"bit_vec/&T" + TR + ACC],
        bins=["bits"],
    ),
    "C02": dict(
        own=[
            PRIM + TR + r"(get|set|flip)_bit",
            WORDS + TR + r"(get|set|flip)_bit",
            WRAP + TR + r"(get|set|flip)_bit",
            r"bit_vec/BitSlice" + TR + r"(get|set|flip)_bit",
            r"bit_vec/BitVec" + TR + r"(get|set|flip)_bit",
            r"bit_vec/BitSlice::(get|set|flip)",
        ],
        deps=[
            r"client/c02_\w+",
            r"bit_vec/.*_unchecked(_mut)?",
            r"bit_vec/BitVec::new",
            r"bit_vec/BitVec as (?!Debug).*",
            r"bit_vec/BitSlice::.*",
            r"bit_vec/(BitSlice|Iter|&BitSlice|&BitVec) as .*",
            r"bit_vec/Iter::new",
        ],
        bins=["bits"],
    ),
    "C03": dict(
        own=[PRIM + TR + ACC, WORDS + TR + ACC, WRAP + TR + ACC],
        deps=[r"client/c03_\w+"],
        bins=["bits"],
    ),
    "C04": dict(
        own=[
            r"bit_vec/BitSlice::slice(_unchecked)?(_mut)?",
            r"bit_vec/BitSlice::(new|len|is_empty)",
            r"bit_vec/BitSlice" + TR + ACC,
        ],
        deps=[r"client/c04_\w+", ACC_SLICE, r"bit_vec/(&T|&mut T|Box)" + TR + ACC, WORDS + TR + ACC, r"bit_vec/BitVec as (?!Debug).*"],
        bins=["bits"],
    ),
    "C05": dict(
        own=[r"bit_vec/BitSlice::split_at(_mut)?"],
        deps=[
            r"client/c05_\w+",
            r"bit_vec/BitSlice::(new|len|is_empty)",
            ACC_SLICE,
            r"bit_vec/BitSlice" + TR + ACC,
            r"bit_vec/(&T|&mut T|Box)" + TR + ACC,
            WORDS + TR + ACC,
        ],
        bins=["bits"],
    ),
    "C06": dict(
        own=[
            r"bit_vec/Iter as (Iterator|ExactSizeIterator)::\w+",
            r"bit_vec/(&?BitSlice|&BitVec) as IntoIterator::into_iter",
            r"bit_vec/BitSlice::iter",
            r"bit_vec/Iter::new",
        ],
        deps=[
            r"client/c06_\w+",
            r"bit_vec/BitSlice::(new|len)",
            r"bit_vec/BitSlice" + TR + r"get_bit(_unchecked)?",
            r"bit_vec/BitSlice::get(_unchecked)?",
            r"bit_vec/(&T|&mut T|Box)" + TR + r"get_bit(_unchecked)?",
            WORDS + TR + r"get_bit(_unchecked)?",
            r"bit_vec/BitVec as Deref::deref",
        ],
        bins=["bits"],
    ),
    "C07": dict(
        own=[r"bit_vec/BitSlice as PartialEq::\w+"],
        deps=[
            r"client/c07_\w+",
            r"bit_vec/BitSlice::(new|len|iter|get|get_unchecked)",
            r"bit_vec/BitSlice" + TR + r"get_bit(_unchecked)?",
            r"bit_vec/Iter as Iterator::next",
            r"bit_vec/Iter::new",
            r"bit_vec/&?BitSlice as IntoIterator::into_iter",
            r"bit_vec/(&T|&mut T|Box)" + TR + r"get_bit(_unchecked)?",
            WORDS + TR + r"get_bit(_unchecked)?",
        ],
        bins=["bits"],
    ),
    "C08": dict(
        own=[
            r"int_vec/IntVec::(new|with_capacity|push|mask|block_width|current_offset|len)",
            r"int_vec/IntVec as IntAccess::(get|set)(_unchecked)?",
        ],
        deps=[r"client/c08_\w+"],
        bins=["ints"],
    ),
    "C09": dict(
        own=[
            r"int_vec/IntVec::(new|with_capacity|push|mask)",
            r"int_vec/IntVec as IntAccess::(get|set)",
        ],
        deps=[
            r"client/c09_\w+",
            r"int_vec/IntVec::(block_width|current_offset|len)",
            r"int_vec/IntVec as IntAccess::(get|set)_unchecked",
        ],
        bins=["ints"],
    ),
    "C10": dict(
        own=[
            r"int_vec/(Iter|IntoIter) as (Iterator|ExactSizeIterator)::\w+",
            r"int_vec/&?IntVec as IntoIterator::into_iter",
            r"int_vec/IntVec::(iter|is_empty|len)",
        ],
        deps=[
            r"client/c10_\w+",
            r"int_vec/IntVec as IntAccess::get(_unchecked)?",
            r"int_vec/IntVec::(mask|block_width)",
        ],
        bins=["ints"],
    ),
    "C11": dict(
        own=[
            r"rank_select/FlatPopcount::(new|build_indices|len|is_empty|rough_rank_1)",
            r"rank_select/FlatPopcount as RankSupport::\w+",
            r"trait RankSupport::rank_dyn",
        ],
        deps=[
            r"client/c11_\w+",
            r"rank_select/FlatPopcount::sample_ones",
            r"bit_vec/BitVec::raw",
            r"bit_vec/BitVec as Deref::deref",
            r"bit_vec/BitSlice::(len|is_empty|iter|backing)",
            r"bit_vec/Iter as Iterator::next",
            r"int_vec/IntVec::(new|with_capacity|push|mask|block_width|current_offset)",
        ],
        bins=["rank"],
    ),
    "C12": dict(
        own=[
            r"rank_select/FlatPopcount::(new|build_indices|sample_ones|l1)",
            r"rank_select/FlatPopcount as SelectSupport::\w+",
            r"rank_select/\w+ as SelectStrategy::find_l2",
        ],
        deps=[
            r"client/c12_\w+",
            r"bit_vec/BitVec::raw",
            r"bit_vec/BitVec as Deref::deref",
            r"bit_vec/BitSlice::(len|is_empty|iter|backing|new)",
            r"bit_vec/Iter as Iterator::next",
            r"bit_vec/Iter::new",
            r"bit_vec/BitSlice" + TR + r"get_bit(_unchecked)?",
            r"bit_vec/Box" + TR + r"get_bit_unchecked",
            r"bit_vec/&T" + TR + r"get_bit_unchecked",
            WORDS + TR + r"get_bit_unchecked",
            r"bit_vec/usize as BitGet::get_bit_unchecked",
            r"int_vec/IntVec::(new|with_capacity|push|mask|block_width|current_offset|len)",
            r"int_vec/IntVec as IntAccess::get(_unchecked)?",
        ],
        bins=["rank"],
    ),
    "C13": dict(
        own=[
            r"rank_select/FlatPopcount as RankSupport::\w+",
            r"rank_select/FlatPopcount as SelectSupport::\w+",
            r"rank_select/FlatPopcount::(new|build_indices|sample_ones|rough_rank_1|l1)",
        ],
        deps=[
            r"client/c13_\w+",
            r"rank_select/\w+ as SelectStrategy::find_l2",
            r"rank_select/FlatPopcount::(len|is_empty)",
            r"bit_vec/BitVec::raw",
            r"bit_vec/BitVec as Deref::deref",
            r"bit_vec/BitSlice::(len|is_empty|iter|backing|new)",
            r"bit_vec/Iter as Iterator::next",
            r"bit_vec/usize as BitGet::get_bit_unchecked",
            r"int_vec/IntVec::(new|with_capacity|push|mask|block_width|current_offset|len)",
            r"int_vec/IntVec as IntAccess::get(_unchecked)?",
        ],
        bins=["rank"],
    ),
    "C14": dict(
        own=[r"rank_select/(?!Simd)\w+ as SelectStrategy::find_l2"],
        deps=[r"rank_select/Simd\w+ as SelectStrategy::find_l2", r"client/c14_\w+"],
        bins=["rank"],
        simd=True,
    ),
    "C15": dict(
        own=[
            r"bit_vec/BitVec::(new|raw)",
            r"bit_vec/BitVec as AsRef<\[usize\]>::as_ref",
            r"bit_vec/BitSlice::backing",
            WORDS + r" as BitModify::" + ACC,
            r"int_vec/IntVec::(new|with_capacity|push|raw_data|current_offset)",
            r"int_vec/IntVec as IntAccess::set(_unchecked)?",
        ],
        deps=[
            r"client/c15_\w+",
            r"bit_vec/BitVec as (?!Debug).*",
            r"bit_vec/BitSlice as BitModify::" + ACC,
            r"bit_vec/BitSlice::(set|flip)(_unchecked)?",
            r"bit_vec/Box as BitModify::" + ACC,
            r"int_vec/IntVec::(mask|block_width|len)",
        ],
        bins=["bits", "ints"],
    ),
    "C16": dict(
        own=[r"bit_vec/BitVec as Debug::fmt"],
        deps=[
            r"client/c16_\w+",
            r"bit_vec/BitVec as Deref::deref",
            r"bit_vec/BitSlice::(iter|len|new)",
            r"bit_vec/Iter as Iterator::next",
            r"bit_vec/Iter::new",
            r"bit_vec/(&T|Box)" + TR + r"get_bit(_unchecked)?",
            WORDS + TR + r"get_bit(_unchecked)?",
        ],
        bins=["bits"],
        assumptions=["core::fmt is modelled by a sequence of characters: a write appends its text or fails, `{}` of a string, a character and the integers 0 and 1 shows them; padding and precision options do not apply to the pieces"],
    ),
}
