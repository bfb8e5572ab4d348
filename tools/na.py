# Reasons for the properties no check claims.
REASON = {
    "C31": "termination and allocation bounds of the binary decoders on malformed input quantify over run-time sizes, and the decoders reject by unwrap/expect panics by design: no sound static bound is in reach that would not alarm on the current code",
}
