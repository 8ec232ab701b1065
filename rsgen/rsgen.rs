//! rsgen IR.json SUPPORT_PATH_FORMAT OUT.rs OUT.cc FORMATTER: the generator of rs_bindings_from_cc on an IR.
use database::code_snippet::Bindings;
use error_report::{ErrorReport, FatalErrors, SourceLanguage};
use std::ffi::OsString;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let proto = ir_rust_proto::IRProto(protobuf::read(&j, ir_rust_proto::IRProto::schema));
    let ir = ir::proto_to_ir(proto.as_view()).unwrap();
    let report = ErrorReport::new(SourceLanguage::Cpp);
    let fatal = FatalErrors::new();
    let none = OsString::new();
    let Bindings { rs_api, rs_api_impl } = generate_bindings::generate_bindings(
        &ir, &a[2], "", &OsString::from(&a[5]), &none, &none, &report, &fatal, false, false, "",
    )
    .unwrap();
    std::fs::write(&a[3], rs_api).unwrap();
    std::fs::write(&a[4], rs_api_impl).unwrap();
    eprintln!("{}", fatal.take_string());
}
