"""Which obligations decide which property.

A row is (crate, pattern, tier, kind).  `pattern` is a full-match regular expression over the harness names in
harnesses.txt; tier "quick" rows also run in the thorough tier.  kind:
  proof    every value of every input named in the harness, no bound on lengths or iterations
           (loops are either absent, or bounded by a constant of the type; unwinding assertions on)
  bounded  the number of points (and with it the buffer) is a small constant; everything else is arbitrary.
           Reported separately and never counted as discharged.
  executed one fixed, large instance, run once on the compiled code (sizes no verifier reaches). Reported
           separately and never counted as discharged.
"""

P, B, X = "proof", "bounded", "executed"

TABLE = {
    "C01": [
        ("core", r"read::c01_iterate_.*", "quick", B),
        ("core", r"read::c01_wider_datatype_in_message", "quick", P),
        ("core", r"state::s_init(_two|_three)?", "quick", P),
        ("core", r"state::s_next_(u8|u16|f64|three)", "quick", P),
        ("core", r"state::s_next_any_step_(u8|f32)", "thorough", P),
        ("core", r"state::s_next_any_step_f64", "thorough", P),
        ("core", r"vec::c01_vec_copy_any_length", "quick", P),
        ("core", r"vec::c04_vec_(prefix_only|missing_field|same_type_outside|narrower|wider_inside)", "quick", P),
        ("wide", r"wide::x01_.*", "quick", X),
    ],
    "C02": [
        ("core", r"read::c02_read_.*", "quick", B),
        ("core", r"state::s_init(_two|_three)?", "quick", P),
        ("core", r"state::s_next_(u8|u16|u32|f64|three)", "quick", P),
        ("core", r"state::s_next_any_step_(u8|f32)", "quick", P),
        ("core", r"state::s_next_any_step_f64", "thorough", P),
        ("exec", r"exec::x02_.*", "quick", X),
        ("wide", r"wide::x02_.*", "quick", X),
    ],
    "C03": [
        ("core", r"vec::c03_vec_(?!overlap_any_step).*", "quick", B),
        ("core", r"vec::c03_vec_overlap_any_step", "thorough", B),
        ("core", r"looped::c03_overlap_any_number", "quick", P),
        ("core", r"vec::c01_vec_copy_any_length", "quick", P),
        ("core", r"contracts::k_known_(a8|a16|a32|p2|b2|u3)", "quick", P),
        ("core", r"contracts::k_known_m2", "thorough", P),
        ("exec", r"exec::x03_.*", "quick", X),
        ("wide", r"wide::x03_.*", "quick", X),
    ],
    "C04": [
        ("core", r"read::c04_(?!any_name).*", "quick", P),
        ("core", r"read::c04_any_name", "thorough", P),
        ("core", r"vec::c04_(?!vec_field_|vec_unknown_(9|255)).*", "quick", P),
        ("core", r"vec::c04_vec_(field_.*|unknown_(9|255))", "thorough", P),
        ("core", r"state::s_init", "quick", P),
        ("wide", r"wide::x0[14]_.*", "quick", X),
    ],
    "C05": [
        ("core", r"induct::c05_any_number_.*", "quick", P),
        ("core", r"write::c05_.*", "quick", B),
        ("exec", r"exec::x05_.*", "quick", X),
        ("wide", r"wide::x05_.*", "quick", X),
    ],
    "C06": [
        ("core", r"write::c06_vec_any_length_.*", "quick", P),
        ("core", r"write::c06_vec_(empty|inner_padding|one_field|trailing_padding|two_fields|undescribed_memory)", "quick", B),
        ("core", r"contracts::k_known_(a32|af64|p2|q2)", "quick", P),
        ("core", r"contracts::k_known_m2", "thorough", P),
        ("exec", r"exec::x06_.*", "quick", X),
        ("pexec", r"pexec::x06_.*", "quick", X),
        ("wide", r"wide::x06_.*", "quick", X),
    ],
    "C07": [
        ("core", r"points::any_length::c07_.*", "quick", P),
        ("core", r"points::c07_convert_.*", "quick", P),
        ("core", r"induct::c07_any_number_(xyz|xyzl|xyzrgba)", "quick", P),
        ("core", r"induct::c07_any_number_.*", "thorough", P),
        ("core", r"state::s_(init|next)_xyz(rgba|inormal)?", "quick", P),
        ("core", r"state::s_(init|next)_xyz.*", "thorough", P),
        ("core", r"points::c07_iter_(xyz|xyzinormal|xyzrgbnormal)", "quick", B),
        ("core", r"points::c07_iter_.*", "thorough", B),
        ("core", r"points::hooked::c07_vec_.*", "thorough", B),
        ("core", r"contracts::k_known_xyz.*", "thorough", P),
        ("exec", r"exec::x07_.*", "quick", X),
    ],
    "C08": [
        ("core", r"read::c08_(?!any_other_name_long).*", "quick", P),
        ("core", r"read::c08_any_other_name_long", "thorough", P),
        ("core", r"vec::c08_.*", "quick", B),
        ("core", r"read::c02_read_two_fields", "quick", B),
        ("core", r"vec::c03_vec_(swapped|exchanged_offsets|prefix)", "quick", B),
        ("core", r"state::s_(next_three|init_two|init_three)", "quick", P),
        ("core", r"read::c04_missing_.*", "quick", P),
        ("wide", r"wide::x0[23]_.*", "quick", X),
    ],
    "C09": [
        ("core", r"read::c09_.*", "quick", B),
        ("core", r"state::s_(size_hint|init|next_u8|next_three)", "quick", P),
        ("par", r"both_ends::c09_.*", "quick", B),
        ("par", r"state::s_(lengths|next_u16|next_back_u8|next_back_u16)", "quick", P),
        ("par", r"state::s_next_back_f64", "thorough", P),
    ],
    "C10": [
        ("core", r"read::c10_split_.*", "quick", B),
        ("core", r"state::s_(split|split_out_of_range|next_u8)", "quick", P),
        ("par", r"state::s_(split_any_length|producer_any_length|next_back_u8)", "quick", P),
        ("par", r"producer::c10_.*", "quick", B),
        ("par", r"both_ends::c10_split_between_the_ends", "quick", B),
        ("pexec", r"pexec::x10_.*", "quick", X),
    ],
    "C11": [("core", r"scalar::c11_.*", "quick", P)],
    "C12": [
        ("core", r"scalar::c12_.*", "quick", P),
        ("wide", r"wide::x12_.*", "quick", X),
    ],
    "C13": [
        ("core", r"scalar::c13_.*", "quick", P),
        ("wide", r"wide::x13_.*", "quick", X),
    ],
    "C14": [
        ("core", r"write::c14_.*", "quick", P),
        ("core", r"scalar::c13_dimensions", "quick", P),
        ("core", r"induct::c05_any_number_(u16|f64)", "quick", P),
        ("core", r"write::c06_vec_any_length_(p2|af64)", "quick", P),
        ("core", r"points::any_length::c07_write_any_(xyz|xyzrgbnormal)", "quick", P),
        ("exec", r"exec::x14_.*", "quick", X),
    ],
    "C15": [
        ("core", r"points::c15_layout_.*", "quick", P),
        ("core", r"contracts::k_known_xyz.*", "quick", P),
    ],
    "C16": [("core", r"scalar::c16_.*", "quick", P)],
    "C17": [("core", r"scalar::c17_.*", "quick", P)],
    "C18": [
        ("ros2", r"convert::c18_.*", "quick", P),
        ("rosx", r"convert::c18_.*", "quick", P),
        ("msgs", r"msgs::x18_.*", "quick", X),
    ],
    "C19": [
        ("derive", r"derived::c19_(layout|convert)_.*", "quick", P),
        ("derive", r"derived::c19_(iter|vec)_.*", "quick", B),
        ("wide", r"wide::x19_.*", "quick", X),
    ],
    "C20": [
        ("derive", r"derived::c20_(layout|convert)_.*", "quick", P),
        ("derive", r"derived::c20_(iter_renamed|iter_exchanged|message_names|vec_renamed)", "quick", B),
        ("derive", r"derived::c20_old_name_is_unknown", "quick", P),
        ("wide", r"wide::x20_.*", "quick", X),
    ],
    "C21": [
        ("serde", r"round::c21_.*", "quick", P),
        ("msgs", r"msgs::x21_.*", "quick", X),
    ],
}

# harnesses of these groups need the private state of the crate (cfg rpcl2_verif in /repo)
HOOKED = r"(contracts::|state::|looped::|points::hooked::|points::any_length::).*"
# states of these are arbitrary well-formed ones, not necessarily reachable from a message: no native run
NOT_NATIVE = r"(state::|contracts::|looped::).*"

# public-API searches for a concrete failing input when an obligation about private state is refuted
SEARCH = {
    "C01": {"core": r"search::n_.*"},
    "C02": {"core": r"search::n_.*"},
    "C03": {"core": r"search::n_.*"},
    "C04": {"core": r"search::n_.*"},
    "C08": {"core": r"search::n_.*"},
    "C09": {"core": r"search::n_.*", "par": r"search::n_.*"},
    "C10": {"core": r"search::n_.*", "par": r"search::n_.*"},
}

# crates that use the public interface only: if /repo compiles and such a crate does not, generated code broke
PUBLIC_ONLY = {"derive"}

# crates that stand in for parts that cannot be built here: their obligations are left undecided when they do not
# compile, as long as the other crates of the property decide something
OPTIONAL = {"rosx"}
