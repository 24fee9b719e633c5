mod alloc;
mod crypt;
mod net;
mod p01_varint;
mod p02_no_crash;
mod p03_frame_decode;
mod p04_frame_encode;
mod p05_frame_seq;
mod p06_header;
mod p07_version_negotiation;
mod p08_header_protection;
mod p09_packet_number;
mod p10_pn_unique;
mod p11_packet_write;
mod p12_packet_read;
mod p13_coalesced;
mod p14_tamper;
mod p15_initial_keys;
mod p16_ids;
mod p17_readers;
mod p18_transport;
mod p19_routing;
mod p21_key_spaces;
mod p22_receive;
mod p23_memory;
mod p24_hkdf;
mod p25_nonce;
mod p26_threads;
mod p28_errors;
mod p29_accept;
mod sequence;
pub mod spec;
mod th;
mod util;
pub mod vx;
