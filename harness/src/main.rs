use vharness::props;

fn main() {
    vharness::cli::run(props::all, |cmd| match cmd {
        // Internal: the timestamp facet runs itself in a child process with another TZ.
        "tz-worker" => Some(props::signers::tz_worker()),
        // Internal: answers questions in a process of its own.
        "answer-worker" => Some(vharness::answers::worker()),
        _ => None,
    });
}
