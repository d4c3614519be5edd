//! No memory is misused: the same executions under AddressSanitizer, and small ones under Miri.
use super::c19;
use crate::runner::*;

pub fn property() -> Property {
    Property {
        id: "C20",
        workloads: vec![
            Workload {
                name: "others",
                rule: "executions of all workloads of the other properties with AddressSanitizer watching every access: none is outside a live allocation",
                quick: 40_000,
                thorough: 3_000_000,
                run: |c| quietly(c, c19::others),
            },
            Workload {
                name: "vast",
                rule: "those of them which have inputs and results of up to a hundred thousand contours or points",
                quick: 1_000,
                thorough: 40_000,
                run: |c| quietly(c, c19::vast),
            },
            Workload {
                name: "integers",
                rule: "hostile integer input (see C19) with AddressSanitizer watching",
                quick: 40_000,
                thorough: 2_000_000,
                run: |c| quietly(c, c19::integers),
            },
            Workload {
                name: "floats",
                rule: "hostile float input (see C19) with AddressSanitizer watching",
                quick: 20_000,
                thorough: 1_000_000,
                run: |c| quietly(c, c19::floats),
            },
            Workload {
                name: "buffers",
                rule: "strokes and outlines of hostile input (see C19) with AddressSanitizer watching",
                quick: 15_000,
                thorough: 1_000_000,
                run: |c| quietly(c, c19::buffers),
            },
        ],
        assumptions: &["memory is judged where the code under test accesses it in these executions", "leaks are C22's"],
    }
}

/// Only what the instruments say counts here: wrong results and panics are other properties'.
fn quietly(c: &mut Case, run: fn(&mut Case) -> CaseResult) -> CaseResult {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c))).is_err() {
        c.count("panics", 1);
    }
    Ok(())
}
