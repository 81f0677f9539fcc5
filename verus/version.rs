//@include head.rs
verus!{
//@include prelude.rs

pub mod fmt {
    use crate::*;
    pub type Result = std::result::Result<(), Error>;
    pub struct Error;
    /// the text that was written; a String's formatter never fails
    #[verifier::external_body]
    pub struct Formatter { s: std::string::String }
    impl View for Formatter { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Formatter {
        /// write! of a text
        #[verifier::external_body]
        pub fn v_write(&mut self, t: crate::String) -> (r: Result)
            ensures r is Ok, final(self)@ == old(self)@ + t@
        { unimplemented!() }
    }
}

//@struct sudo_plugin/src/version.rs Version

impl Version {
//@fn sudo_plugin/src/version.rs Display for Version::fmt
//@ret r
//@subst fmt::Formatter<'_> => fmt::Formatter
//@spec
    ensures
        r is Ok, // the version is not printed
        final(f)@ =~= old(f)@ + (dec(self.major as int) + b"."@ + dec(self.minor as int)), // the version's text is not major.minor
//@end
}

}
fn main(){}
