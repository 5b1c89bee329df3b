//@path fs::create_dir_all = create_dir_all
//@ret create_dir_all = Result<(), XErr>
verus! {
// file system: what exists and what can be created is an input of the run
pub uninterp spec fn path_exists(p: Seq<u8>) -> bool;
pub uninterp spec fn create_dir_all(p: Seq<u8>) -> Result<(), XErr>;
pub uninterp spec fn path_join(dir: Seq<u8>, name: Seq<u8>) -> Seq<u8>;
pub trait XPathOps: Sized { spec fn exists(self) -> bool; spec fn x_join(self, name: Seq<u8>) -> Seq<u8>; }
impl XPathOps for Seq<u8> {
    open spec fn exists(self) -> bool { path_exists(self) }
    open spec fn x_join(self, name: Seq<u8>) -> Seq<u8> { path_join(self, name) }
}
}
