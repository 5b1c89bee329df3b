"""What each check runs."""
COMMON_TRUST = [
    "vx, the syn-based extractor in /verif/vx: translates the named functions of /repo to Verus spec functions on every run",
    "Verus 0.2026.09.13, its Z3 and vstd",
    "units/prelude.rs: mathematical meaning of the std/bstr operations the extracted code calls (definitions, no axioms)",
]
PROPS = {
    "C01": dict(units=["m_codec.rs"]),
    "C02": dict(units=["m_record.rs"]),
    "C03": dict(units=["m_reader.rs"]),
    "C04": dict(units=["m_tagocc.rs", "m_tagmatch.rs"]),
    "C05": dict(units=["m_subfield.rs"]),
    "C06": dict(units=["m_field.rs"]),
    "C07": dict(units=["m_algebra.rs"]),
    "C08": dict(units=["m_parse.rs"]),
    "C09": dict(units=["m_path.rs", "m_pathparse.rs"]),
    "C10": dict(units=["m_query.rs", "m_queryparse.rs"]),
    "C11": dict(units=["m_fmt.rs", "m_fmtparse.rs"]),
    "C12": dict(units=["m_filter.rs"], pica=True),
    "C13": dict(units=["m_cmdfilter.rs"], pica=True),
    "C14": dict(units=["m_cmdslice.rs"], pica=True),
    "C15": dict(units=["m_cmdsplit.rs", "m_cmdpartition.rs"], pica=True),
    "C16": dict(units=["m_cmdexplode.rs"], pica=True),
    "C17": dict(units=["m_cmdconcat.rs", "m_cmdselect.rs", "m_cmdsample.rs"], pica=True),
    "C18": dict(units=["m_checks.rs"], pica=True),
    "C19": dict(units=["m_cmdinvalid.rs", "m_cmdconcat.rs"], pica=True),
    "C20": dict(units=["m_cmdhash.rs", "m_cmdprint.rs", "m_cmdconvert.rs"], pica=True),
    "C21": dict(units=["m_cmdcount.rs", "m_cmdfreq.rs"], pica=True),
}
for _p in PROPS.values():
    _p["level"] = "proof" if _p["units"] else "exploration"
