"""what decides each property: verifier configurations, bounded builds, trusted base"""
DP = ["dataptr dbg", "dataptr"]
GEN_Q, GEN_T = ["gen dbg events"], ["gen dbg events", "gen", "gen events", "gen dbg"]
GEN_C = ["gen dbg events cfg-" + x for x in ("", "abc", "a", "b", "c", "ab", "ac", "bc")]   # the decorated fixture, all truth assignments
CORE_Q = ["core dbg n2 events", "core n3"] + DP
CORE_T = ["core dbg n2 events", "core n3"] + DP + ["core dbg n%d events" % n for n in (1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)] + ["core n2 events", "core dbg n2", "core n2 wrapping_version", "core dbg n2 wrapping_version events"]
HX_Q = ["dbg events", "rel"]
HX_T = ["dbg events", "rel", "asan events", "rel events wrapping_version"]
TRUSTED = [
    "Verus 0.2026.09.13 and its bundled Z3; rustc 1.98.1 front end of Verus",
    "the extraction rules listed under extraction_rules (mechanical, re-run on every check)",
    "std shims with assumed contracts: RefCell/Ref/RefMut, slice get_unchecked(_mut)/get_mut, Vec (vstd), MaybeUninit as Option",
]
ASSUMPTIONS = [
    "raw memory: std::alloc, std::ptr, NonNull and slice::from_raw_parts are shims with assumed contracts (a block is a sequence of cells; values move between cells; a cell may be overwritten or a block freed only when nothing in it still has to be dropped); DataPtr's own bodies are verified against them",
    "a component column larger than isize::MAX bytes is refused before any change of that column (proved); that several columns then disagree is not considered (it takes a component of more than 512 GiB)",
    "the iterator pointers (Iter/IterMut) walk a snapshot of the column's cells; the final values written through the references they hand out are not tracked",
    "Vec::push of the event logs does not fail; allocation failure aborts",
    "the storage proof takes the generated Components/View/Slices impls (raw_new/raw_get/new, positional) at their trait contract; the unit gen verifies those impls as generated for the fixture world",
    "unit gen: the code rustc expands ecs_world! and the query macros to is verified for every state and input, but for the fixture world's declarations (three archetypes of two components, explicit and implicit ids); other declarations are covered by the unit macros (which archetype gets which block and id) and by the bounded builds",
    "std functions with assumed contracts beyond vstd's: Option::copied/or/xor/replace, mem::replace, bool::then_some, u32::overflowing_add/abs_diff/rotate_left, usize::div_ceil, cmp::min/max (used only where the source calls them)",
    "unit gen: transmute between &Entity<A> and &EntityAny is the identity (repr(transparent)); slice::Iter is a shim over a ghost sequence",
    "unit gen, queries: the nineteen queries of the fixture crate (ecs_iter!, ecs_iter_borrow!, ecs_iter_destroy!, ecs_find!, ecs_find_borrow! with every parameter kind and key kind); the user's closure is opaque (any return, any writes through its &mut arguments); what a closure does to other cells through a captured reference in the borrowing variants is not modelled",
]
def e(verus=CORE_Q + GEN_Q, verus_thorough=CORE_T + GEN_T, hx=HX_Q, hx_thorough=HX_T, level="proof", **k):
    d = dict(verus=verus, verus_thorough=verus_thorough, hx=hx, hx_thorough=hx_thorough, level=level); d.update(k); return d
MEM = ["dbg events", "asan events"]
MTRUST = ["shims with assumed contracts for syn (parse buffers read positions of a buffer; Punctuated; lookahead), proc_macro2 (Ident/TokenStream text) and std HashMap/HashSet/Vec/iterators; derived Clone copies",
          "is_allowed_component_name (string match), DataWorld to_base64/from_base64 (serialisation round trip); the position of a parse buffer is not tracked (which token kinds were seen and which results were read is)"]
MASSUME = ["quote! templates are opaque token streams: what is proved is which archetypes get a block, in which order, with which bound parameters, which ids and components are recorded, and when an error is returned; that a block's text does what it should is verified after expansion for the fixture crate (unit gen) and covered by the bounded client programs beyond; that rustc rejects what the macros reject is covered by the bounded client programs",
           "the probing macro chain (generate/cfg.rs) delivers one boolean per collected predicate in order: verified after expansion for the decorated fixture (three predicates; all false and all true in the quick tier, all eight assignments in the thorough tier), beyond that covered by the bounded client programs with several predicates and all truth assignments"]
PLAN = {
    "C01": e(), "C02": e(), "C03": e(hx=MEM), "C04": e(hx=MEM),
    "C05": e(verus=["macros"] + GEN_Q, verus_thorough=["macros"] + GEN_T, hx=["dbg events"], progs=["C05"], trusted=MTRUST, assumptions=MASSUME[:1]),
    "C06": e(), "C07": e(), "C08": e(verus=CORE_Q + GEN_Q + ["core n1 wrapping_version"]), "C09": e(),
    "C10": e(hx=MEM, verus=CORE_Q + GEN_Q + ["core n1 wrapping_version"]), "C11": e(), "C12": e(), "C13": e(), "C14": e(),
    "C15": e(verus=["macros"] + GEN_Q, verus_thorough=["macros"] + GEN_T, hx=["dbg events"], progs=["C15"], trusted=MTRUST, assumptions=MASSUME[:1]),
    "C16": e(verus=["macros"] + GEN_C[:2], verus_thorough=["macros"] + GEN_C + ["gen cfg-b"], hx=[], hx_thorough=["dbg events"], progs=["C16"], trusted=MTRUST, assumptions=MASSUME),
    "C17": e(hx=["dbg events", "rel events"]),
    "C19": e(verus=CORE_Q + ["core dbg n2 wrapping_version events", "core n2 wrapping_version", "core n2 events", "core dbg n2", "core n17 32_components"],
             verus_thorough=CORE_T + ["core n17 32_components", "core n20 32_components", "core n24 32_components events", "core n32 32_components"],
             hx=["dbg 32_components wrapping_version", "rel events", "rel 32_components events wrapping_version"],
             hx_thorough=["dbg", "rel", "dbg events", "rel events", "dbg wrapping_version", "rel wrapping_version", "dbg 32_components wrapping_version", "rel 32_components events", "rel 32_components events wrapping_version", "asan 32_components events"], secs=6),
}
