mod client;
mod explore;
mod heap;
mod p_rest;
mod p_auth;
mod p_core;
mod p_fault;
mod p_flow;
mod p_hs;
mod p_msg;
mod p_scp;
mod p_session;
mod p_sshd;
mod procs;
mod refssh;
mod report;
mod session;
mod watch;
mod world;

fn dispatch(rep: &mut report::Rep) -> bool {
	match rep.id.as_str() {
		"C01" => p_msg::c01(rep),
		"C02" => p_msg::c02(rep),
		"C03" => p_core::c03(rep),
		"C04" => p_core::c04(rep),
		"C05" => p_core::c05(rep),
		"C06" => p_core::c06(rep),
		"C07" => p_core::c07(rep),
		"C08" => p_hs::c08(rep),
		"C09" => p_hs::c09(rep),
		"C10" => p_hs::c10(rep),
		"C11" => p_auth::c11(rep),
		"C12" => p_auth::c12(rep),
		"C13" => p_auth::c13(rep),
		"C14" => p_session::c14(rep),
		"C15" => p_session::c15(rep),
		"C16" => p_session::c16(rep),
		"C17" => p_session::c17(rep),
		"C18" => p_session::c18(rep),
		"C19" => p_fault::c19(rep),
		"C20" => p_fault::c20(rep),
		"C22" => p_scp::c22(rep),
		"C23" => p_scp::c23(rep),
		"C24" => p_scp::c24(rep),
		"C25" => p_scp::c25(rep),
		"C26" => p_sshd::c26(rep),
		"C27" => p_sshd::c27(rep),
		"C30" => p_sshd::c30(rep),
		"C21" => p_fault::c21(rep),
		"C28" => p_rest::c28(rep),
		"C29" => p_flow::c29(rep),
		_ => return false,
	}
	true
}

fn main() {
	let args: Vec<_> = std::env::args_os().skip(1).collect();
	if args.first().map_or(false, |a| a == "helper") {
		p_sshd::helper(&args[1..]);
	}
	world::install_panic_hook();
	report::main();
}
