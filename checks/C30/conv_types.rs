impl crate::OwnedThing {
    pub(crate) fn DropImpl(&mut self) { unsafe { crate::RawThing::Close(self.0.as_mut()); } }
}
impl crate::OwnedOther {
    pub(crate) fn FreeIt(&mut self) { unsafe { crate::free_other(self.0.as_ptr()); } }
}
