use crate::vx;
use quic_sea::verif_hooks as q;
use q::Error as E;

/// any error: its code is the one RFC 9000 section 20.1 registers
#[no_mangle]
pub extern "C" fn error_codes() {
    let n = vx::below(17);
    let e = match n {
        0 => E::NoError,
        1 => E::InternalError("x"),
        2 => E::ConnectionRefused,
        3 => E::FlowControlError,
        4 => E::StreamLimitError,
        5 => E::StreamStateError,
        6 => E::FinalSizeError,
        7 => E::FrameEncodingError,
        8 => E::TransportParameterError,
        9 => E::ConnectionIdLimitError,
        10 => E::ProtocolViolation,
        11 => E::InvalidToken,
        12 => E::ApplicationError,
        13 => E::CryptoBufferExceeded,
        14 => E::KeyUpdateError,
        15 => E::AeadLimitReached,
        _ => E::NoViablePath,
    };
    vx::cover("code");
    vx::log(e.to_error_byte() as u64);
    vx::check(e.to_error_byte() as u64 == n, "the error code is the registered one");
    vx::check(e.clone().to_error_byte() as u64 == n, "a copy of an error is the same error");
}
