// The tool's main function, with its arguments given by the harness and its files in memory.
use crate::DandyArgs;
use ::std::vec::Vec;
use ::std::string::String;

pub fn set_file(path: &str, text: String) {
    dandy_verif_std::files::set(path, text)
}
pub fn clear_files() {
    dandy_verif_std::files::clear()
}
/// what was written to files: (path, text)
pub fn written() -> Vec<(Vec<u8>, Vec<u8>)> {
    dandy_verif_std::files::written().iter().map(|w| (w.0.clone(), w.1.clone())).collect()
}

static mut ARGUMENTS: Vec<String> = Vec::new();
impl DandyArgs {
    /// found before the function of clap's trait
    #[allow(static_mut_refs)]
    pub fn parse() -> Self {
        <Self as clap::Parser>::parse_from(unsafe { ::std::mem::take(&mut ARGUMENTS) })
    }
}
#[allow(static_mut_refs)]
pub fn run_main(args: Vec<String>) {
    unsafe { ARGUMENTS = args }
    let _ = crate::main();
}
/// whether main would go on with these arguments
pub fn understood(args: Vec<String>) -> bool {
    <DandyArgs as clap::Parser>::try_parse_from(args).is_ok()
}
