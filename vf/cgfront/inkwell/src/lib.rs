//! inkwell's interface over the LLVM 16 C library, as far as a code generator of this kind needs it.
//! Every function is the same thin wrapper over the same LLVM-C call as in inkwell itself.
#![allow(clippy::all, non_upper_case_globals)]
use std::ffi::{CStr, CString};
use std::marker::PhantomData;
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong, c_void};

pub mod ffi {
    use super::*;
    pub type P = *mut c_void;
    extern "C" {
        pub fn LLVMContextCreate() -> P;
        pub fn LLVMContextDispose(c: P);
        pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: P) -> P;
        pub fn LLVMDisposeModule(m: P);
        pub fn LLVMCreateBuilderInContext(c: P) -> P;
        pub fn LLVMDisposeBuilder(b: P);
        pub fn LLVMIntTypeInContext(c: P, n: c_uint) -> P;
        pub fn LLVMVoidTypeInContext(c: P) -> P;
        pub fn LLVMPointerTypeInContext(c: P, a: c_uint) -> P;
        pub fn LLVMArrayType(t: P, n: c_uint) -> P;
        pub fn LLVMStructTypeInContext(c: P, e: *mut P, n: c_uint, packed: c_int) -> P;
        pub fn LLVMFunctionType(r: P, p: *mut P, n: c_uint, va: c_int) -> P;
        pub fn LLVMGetTypeKind(t: P) -> c_uint;
        pub fn LLVMGetIntTypeWidth(t: P) -> c_uint;
        pub fn LLVMGetElementType(t: P) -> P;
        pub fn LLVMGetArrayLength(t: P) -> c_uint;
        pub fn LLVMTypeIsSized(t: P) -> c_int;
        pub fn LLVMCountStructElementTypes(t: P) -> c_uint;
        pub fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
        pub fn LLVMGetReturnType(t: P) -> P;
        pub fn LLVMCountParamTypes(t: P) -> c_uint;
        pub fn LLVMGetParamTypes(t: P, d: *mut P);
        pub fn LLVMIsFunctionVarArg(t: P) -> c_int;
        pub fn LLVMGetTypeContext(t: P) -> P;
        pub fn LLVMPrintTypeToString(t: P) -> *mut c_char;
        pub fn LLVMPrintValueToString(t: P) -> *mut c_char;
        pub fn LLVMPrintModuleToString(t: P) -> *mut c_char;
        pub fn LLVMDisposeMessage(t: *mut c_char);
        pub fn LLVMConstInt(t: P, n: c_ulonglong, s: c_int) -> P;
        pub fn LLVMConstIntOfArbitraryPrecision(t: P, n: c_uint, w: *const u64) -> P;
        pub fn LLVMConstIntOfStringAndSize(t: P, s: *const c_char, n: c_uint, radix: u8) -> P;
        pub fn LLVMConstNull(t: P) -> P;
        pub fn LLVMConstAllOnes(t: P) -> P;
        pub fn LLVMGetUndef(t: P) -> P;
        pub fn LLVMGetPoison(t: P) -> P;
        pub fn LLVMConstStringInContext(c: P, s: *const c_char, n: c_uint, dont_null: c_int) -> P;
        pub fn LLVMConstArray(t: P, v: *mut P, n: c_uint) -> P;
        pub fn LLVMIsConstant(v: P) -> c_int;
        pub fn LLVMIsAConstantInt(v: P) -> P;
        pub fn LLVMIsNull(v: P) -> c_int;
        pub fn LLVMIsUndef(v: P) -> c_int;
        pub fn LLVMIsPoison(v: P) -> c_int;
        pub fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
        pub fn LLVMConstIntGetSExtValue(v: P) -> i64;
        pub fn LLVMTypeOf(v: P) -> P;
        pub fn LLVMSetValueName2(v: P, s: *const c_char, n: usize);
        pub fn LLVMGetValueName2(v: P, n: *mut usize) -> *const c_char;
        pub fn LLVMAddFunction(m: P, n: *const c_char, t: P) -> P;
        pub fn LLVMGetNamedFunction(m: P, n: *const c_char) -> P;
        pub fn LLVMGetFirstFunction(m: P) -> P;
        pub fn LLVMGetNextFunction(m: P) -> P;
        pub fn LLVMDeleteFunction(m: P);
        pub fn LLVMGetNamedGlobal(m: P, n: *const c_char) -> P;
        pub fn LLVMAddGlobal(m: P, t: P, n: *const c_char) -> P;
        pub fn LLVMAddGlobalInAddressSpace(m: P, t: P, n: *const c_char, a: c_uint) -> P;
        pub fn LLVMSetInitializer(g: P, v: P);
        pub fn LLVMGetInitializer(g: P) -> P;
        pub fn LLVMSetGlobalConstant(g: P, c: c_int);
        pub fn LLVMIsGlobalConstant(g: P) -> c_int;
        pub fn LLVMSetUnnamedAddress(g: P, c: c_int);
        pub fn LLVMSetAlignment(g: P, c: c_uint);
        pub fn LLVMSetLinkage(g: P, l: c_uint);
        pub fn LLVMGetLinkage(g: P) -> c_uint;
        pub fn LLVMGlobalGetValueType(g: P) -> P;
        pub fn LLVMCountParams(f: P) -> c_uint;
        pub fn LLVMGetParam(f: P, i: c_uint) -> P;
        pub fn LLVMCountBasicBlocks(f: P) -> c_uint;
        pub fn LLVMGetFirstBasicBlock(f: P) -> P;
        pub fn LLVMGetLastBasicBlock(f: P) -> P;
        pub fn LLVMGetEntryBasicBlock(f: P) -> P;
        pub fn LLVMGetNextBasicBlock(f: P) -> P;
        pub fn LLVMGetPreviousBasicBlock(f: P) -> P;
        pub fn LLVMAppendBasicBlockInContext(c: P, f: P, n: *const c_char) -> P;
        pub fn LLVMInsertBasicBlockInContext(c: P, b: P, n: *const c_char) -> P;
        pub fn LLVMGetBasicBlockParent(b: P) -> P;
        pub fn LLVMGetBasicBlockTerminator(b: P) -> P;
        pub fn LLVMGetBasicBlockName(b: P) -> *const c_char;
        pub fn LLVMGetFirstInstruction(b: P) -> P;
        pub fn LLVMGetLastInstruction(b: P) -> P;
        pub fn LLVMDeleteBasicBlock(b: P);
        pub fn LLVMMoveBasicBlockAfter(b: P, a: P);
        pub fn LLVMMoveBasicBlockBefore(b: P, a: P);
        pub fn LLVMPositionBuilderAtEnd(b: P, bb: P);
        pub fn LLVMPositionBuilderBefore(b: P, i: P);
        pub fn LLVMGetInsertBlock(b: P) -> P;
        pub fn LLVMGetInstructionParent(i: P) -> P;
        pub fn LLVMInstructionEraseFromParent(i: P);
        pub fn LLVMBuildCall2(b: P, t: P, f: P, a: *mut P, n: c_uint, s: *const c_char) -> P;
        pub fn LLVMBuildLoad2(b: P, t: P, p: P, s: *const c_char) -> P;
        pub fn LLVMBuildStore(b: P, v: P, p: P) -> P;
        pub fn LLVMBuildAlloca(b: P, t: P, s: *const c_char) -> P;
        pub fn LLVMBuildArrayAlloca(b: P, t: P, n: P, s: *const c_char) -> P;
        pub fn LLVMBuildBinOp(b: P, op: c_uint, x: P, y: P, s: *const c_char) -> P;
        pub fn LLVMBuildNot(b: P, x: P, s: *const c_char) -> P;
        pub fn LLVMBuildNeg(b: P, x: P, s: *const c_char) -> P;
        pub fn LLVMBuildICmp(b: P, op: c_uint, x: P, y: P, s: *const c_char) -> P;
        pub fn LLVMBuildSelect(b: P, c: P, x: P, y: P, s: *const c_char) -> P;
        pub fn LLVMBuildPhi(b: P, t: P, s: *const c_char) -> P;
        pub fn LLVMAddIncoming(p: P, v: *mut P, b: *mut P, n: c_uint);
        pub fn LLVMBuildCast(b: P, op: c_uint, v: P, t: P, s: *const c_char) -> P;
        pub fn LLVMBuildIntCast(b: P, v: P, t: P, s: *const c_char) -> P;
        pub fn LLVMBuildIntCast2(b: P, v: P, t: P, signed: c_int, s: *const c_char) -> P;
        pub fn LLVMBuildZExtOrBitCast(b: P, v: P, t: P, s: *const c_char) -> P;
        pub fn LLVMBuildTruncOrBitCast(b: P, v: P, t: P, s: *const c_char) -> P;
        pub fn LLVMBuildStructGEP2(b: P, t: P, p: P, i: c_uint, s: *const c_char) -> P;
        pub fn LLVMBuildGEP2(b: P, t: P, p: P, i: *mut P, n: c_uint, s: *const c_char) -> P;
        pub fn LLVMBuildInBoundsGEP2(b: P, t: P, p: P, i: *mut P, n: c_uint, s: *const c_char) -> P;
        pub fn LLVMBuildExtractValue(b: P, v: P, i: c_uint, s: *const c_char) -> P;
        pub fn LLVMBuildInsertValue(b: P, v: P, e: P, i: c_uint, s: *const c_char) -> P;
        pub fn LLVMBuildRetVoid(b: P) -> P;
        pub fn LLVMBuildRet(b: P, v: P) -> P;
        pub fn LLVMBuildAggregateRet(b: P, v: *mut P, n: c_uint) -> P;
        pub fn LLVMBuildBr(b: P, bb: P) -> P;
        pub fn LLVMBuildCondBr(b: P, c: P, t: P, e: P) -> P;
        pub fn LLVMBuildSwitch(b: P, v: P, e: P, n: c_uint) -> P;
        pub fn LLVMAddCase(s: P, v: P, b: P);
        pub fn LLVMBuildUnreachable(b: P) -> P;
        pub fn LLVMBuildGlobalStringPtr(b: P, s: *const c_char, n: *const c_char) -> P;
        pub fn LLVMLinkModules2(d: P, s: P) -> c_int;
        pub fn LLVMVerifyModule(m: P, a: c_uint, msg: *mut *mut c_char) -> c_int;
        pub fn LLVMVerifyFunction(f: P, a: c_uint) -> c_int;
        pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, n: usize, s: *const c_char) -> P;
        pub fn LLVMDisposeMemoryBuffer(b: P);
        pub fn LLVMGetBufferStart(b: P) -> *const c_char;
        pub fn LLVMGetBufferSize(b: P) -> usize;
        pub fn LLVMParseBitcodeInContext2(c: P, b: P, m: *mut P) -> c_int;
        pub fn LLVMWriteBitcodeToMemoryBuffer(m: P) -> P;
        pub fn LLVMSetTarget(m: P, t: *const c_char);
        pub fn LLVMInitializeWebAssemblyTargetInfo();
        pub fn LLVMInitializeWebAssemblyTarget();
        pub fn LLVMInitializeWebAssemblyTargetMC();
        pub fn LLVMInitializeWebAssemblyAsmPrinter();
        pub fn LLVMInitializeWebAssemblyAsmParser();
        pub fn LLVMGetTargetFromName(n: *const c_char) -> P;
        pub fn LLVMCreateTargetMachine(t: P, tr: *const c_char, cpu: *const c_char, f: *const c_char, l: c_uint, r: c_uint, c: c_uint) -> P;
        pub fn LLVMTargetMachineEmitToMemoryBuffer(t: P, m: P, k: c_uint, e: *mut *mut c_char, b: *mut P) -> c_int;
    }
}
use ffi::*;

fn cs(s: &str) -> CString {
    CString::new(s.replace('\0', "?")).unwrap()
}
unsafe fn take(p: *mut c_char) -> String {
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum OptimizationLevel { None = 0, Less = 1, Default = 2, Aggressive = 3 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct AddressSpace(u32);
impl From<u16> for AddressSpace { fn from(v: u16) -> Self { AddressSpace(v as u32) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum IntPredicate { EQ = 32, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE }

pub mod support {
    #[derive(Clone, PartialEq, Eq)]
    pub struct LLVMString(pub(crate) String);
    impl std::fmt::Display for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
    }
    impl std::fmt::Debug for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) }
    }
    impl std::error::Error for LLVMString {}
    impl LLVMString {
        pub fn to_str(&self) -> Result<&str, std::str::Utf8Error> { Ok(&self.0) }
    }
    impl std::ops::Deref for LLVMString { type Target = str; fn deref(&self) -> &str { &self.0 } }
}
use support::LLVMString;

pub mod context {
    use super::*;
    use super::{basic_block::BasicBlock, builder::Builder, module::Module, types::*, values::*};
    #[derive(Debug, PartialEq, Eq)]
    pub struct Context { pub(crate) p: P }
    impl Drop for Context { fn drop(&mut self) {} }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct ContextRef<'ctx> { pub(crate) p: P, pub(crate) m: PhantomData<&'ctx ()> }
    impl Context {
        pub fn create() -> Self { unsafe { Context { p: LLVMContextCreate() } } }
        pub fn create_module(&self, name: &str) -> Module<'_> {
            unsafe { Module::new(LLVMModuleCreateWithNameInContext(cs(name).as_ptr(), self.p), self.p) }
        }
        pub fn create_builder(&self) -> Builder<'_> { unsafe { Builder { p: LLVMCreateBuilderInContext(self.p), m: PhantomData } } }
        pub fn void_type(&self) -> VoidType<'_> { unsafe { VoidType::new(LLVMVoidTypeInContext(self.p)) } }
        pub fn custom_width_int_type(&self, n: u32) -> IntType<'_> { unsafe { IntType::new(LLVMIntTypeInContext(self.p, n)) } }
        pub fn bool_type(&self) -> IntType<'_> { self.custom_width_int_type(1) }
        pub fn i8_type(&self) -> IntType<'_> { self.custom_width_int_type(8) }
        pub fn i16_type(&self) -> IntType<'_> { self.custom_width_int_type(16) }
        pub fn i32_type(&self) -> IntType<'_> { self.custom_width_int_type(32) }
        pub fn i64_type(&self) -> IntType<'_> { self.custom_width_int_type(64) }
        pub fn i128_type(&self) -> IntType<'_> { self.custom_width_int_type(128) }
        pub fn ptr_type(&self, a: AddressSpace) -> PointerType<'_> { unsafe { PointerType::new(LLVMPointerTypeInContext(self.p, a.0)) } }
        pub fn struct_type<'ctx>(&'ctx self, f: &[BasicTypeEnum<'ctx>], packed: bool) -> StructType<'ctx> {
            let mut v: Vec<P> = f.iter().map(|t| t.as_type_ref()).collect();
            unsafe { StructType::new(LLVMStructTypeInContext(self.p, v.as_mut_ptr(), v.len() as u32, packed as c_int)) }
        }
        pub fn const_string(&self, s: &[u8], null_terminated: bool) -> ArrayValue<'_> {
            unsafe { ArrayValue::new(LLVMConstStringInContext(self.p, s.as_ptr() as *const c_char, s.len() as u32, !null_terminated as c_int)) }
        }
        pub fn append_basic_block<'ctx>(&'ctx self, f: FunctionValue<'ctx>, name: &str) -> BasicBlock<'ctx> {
            unsafe { BasicBlock::new(LLVMAppendBasicBlockInContext(self.p, f.as_value_ref(), cs(name).as_ptr())).unwrap() }
        }
        pub fn insert_basic_block_after<'ctx>(&'ctx self, b: BasicBlock<'ctx>, name: &str) -> BasicBlock<'ctx> {
            match b.get_next_basic_block() {
                Some(n) => self.prepend_basic_block(n, name),
                None => self.append_basic_block(b.get_parent().unwrap(), name),
            }
        }
        pub fn prepend_basic_block<'ctx>(&'ctx self, b: BasicBlock<'ctx>, name: &str) -> BasicBlock<'ctx> {
            unsafe { BasicBlock::new(LLVMInsertBasicBlockInContext(self.p, b.p, cs(name).as_ptr())).unwrap() }
        }
    }
}

pub mod memory_buffer {
    use super::*;
    #[derive(Debug)]
    pub struct MemoryBuffer { pub(crate) p: P }
    impl MemoryBuffer {
        pub fn create_from_memory_range(d: &[u8], n: &str) -> Self { Self::create_from_memory_range_copy(d, n) }
        pub fn create_from_memory_range_copy(d: &[u8], n: &str) -> Self {
            unsafe { MemoryBuffer { p: LLVMCreateMemoryBufferWithMemoryRangeCopy(d.as_ptr() as *const c_char, d.len(), cs(n).as_ptr()) } }
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.p) as *const u8, LLVMGetBufferSize(self.p)) }
        }
        pub fn get_size(&self) -> usize { unsafe { LLVMGetBufferSize(self.p) } }
    }
}

pub mod basic_block {
    use super::*;
    use super::values::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct BasicBlock<'ctx> { pub(crate) p: P, m: PhantomData<&'ctx ()> }
    impl<'ctx> BasicBlock<'ctx> {
        pub(crate) fn new(p: P) -> Option<Self> { if p.is_null() { None } else { Some(BasicBlock { p, m: PhantomData }) } }
        pub fn get_parent(self) -> Option<FunctionValue<'ctx>> { unsafe { FunctionValue::opt(LLVMGetBasicBlockParent(self.p)) } }
        pub fn get_next_basic_block(self) -> Option<Self> { unsafe { Self::new(LLVMGetNextBasicBlock(self.p)) } }
        pub fn get_previous_basic_block(self) -> Option<Self> { unsafe { Self::new(LLVMGetPreviousBasicBlock(self.p)) } }
        pub fn get_terminator(self) -> Option<InstructionValue<'ctx>> { unsafe { InstructionValue::opt(LLVMGetBasicBlockTerminator(self.p)) } }
        pub fn get_first_instruction(self) -> Option<InstructionValue<'ctx>> { unsafe { InstructionValue::opt(LLVMGetFirstInstruction(self.p)) } }
        pub fn get_last_instruction(self) -> Option<InstructionValue<'ctx>> { unsafe { InstructionValue::opt(LLVMGetLastInstruction(self.p)) } }
        pub fn get_name(&self) -> &CStr { unsafe { CStr::from_ptr(LLVMGetBasicBlockName(self.p)) } }
        pub fn move_after(self, o: BasicBlock<'ctx>) -> Result<(), ()> { unsafe { LLVMMoveBasicBlockAfter(self.p, o.p) }; Ok(()) }
        pub fn move_before(self, o: BasicBlock<'ctx>) -> Result<(), ()> { unsafe { LLVMMoveBasicBlockBefore(self.p, o.p) }; Ok(()) }
        pub unsafe fn delete(self) -> Result<(), ()> { LLVMDeleteBasicBlock(self.p); Ok(()) }
    }
}

pub mod types {
    use super::*;
    use super::values::*;
    pub unsafe trait AsTypeRef { fn as_type_ref(&self) -> P; }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum StringRadix { Binary = 2, Octal = 8, Decimal = 10, Hexadecimal = 16, Alphanumeric = 36 }
    impl StringRadix {
        fn ok(&self, s: &str) -> bool {
            let s = s.strip_prefix(['-', '+']).unwrap_or(s);
            !s.is_empty() && s.chars().all(|c| c.is_digit(*self as u32))
        }
    }
    macro_rules! ty { ($($n:ident),*) => { $(
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $n<'ctx> { p: P, m: PhantomData<&'ctx ()> }
        impl<'ctx> $n<'ctx> {
            pub unsafe fn new(p: P) -> Self { assert!(!p.is_null()); $n { p, m: PhantomData } }
            pub fn print_to_string(self) -> LLVMString { unsafe { LLVMString(take(LLVMPrintTypeToString(self.p))) } }
            pub fn fn_type(self, a: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> {
                let mut v: Vec<P> = a.iter().map(|t| t.as_type_ref()).collect();
                unsafe { FunctionType::new(LLVMFunctionType(self.p, v.as_mut_ptr(), v.len() as u32, va as c_int)) }
            }
            pub fn is_sized(self) -> bool { unsafe { LLVMTypeIsSized(self.p) != 0 } }
        }
        unsafe impl AsTypeRef for $n<'_> { fn as_type_ref(&self) -> P { self.p } }
        impl std::fmt::Display for $n<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "\"{}\"", self.print_to_string()) }
        }
    )* } }
    ty!(IntType, PointerType, ArrayType, StructType, VoidType, FunctionType);
    macro_rules! arr { ($($n:ident),*) => { $(
        impl<'ctx> $n<'ctx> {
            pub fn array_type(self, n: u32) -> ArrayType<'ctx> { unsafe { ArrayType::new(LLVMArrayType(self.p, n)) } }
            pub fn ptr_type(self, a: AddressSpace) -> PointerType<'ctx> { unsafe { PointerType::new(LLVMPointerTypeInContext(LLVMGetTypeContext(self.p), a.0)) } }
        }
    )* } }
    arr!(IntType, PointerType, ArrayType, StructType);
    impl<'ctx> IntType<'ctx> {
        pub fn get_bit_width(self) -> u32 { unsafe { LLVMGetIntTypeWidth(self.p) } }
        pub fn const_int(self, v: u64, sign: bool) -> IntValue<'ctx> { unsafe { IntValue::new(LLVMConstInt(self.p, v, sign as c_int)) } }
        pub fn const_int_from_string(self, s: &str, r: StringRadix) -> Option<IntValue<'ctx>> {
            if !r.ok(s) { return None; }
            unsafe { Some(IntValue::new(LLVMConstIntOfStringAndSize(self.p, s.as_ptr() as *const c_char, s.len() as u32, r as u8))) }
        }
        pub fn const_int_arbitrary_precision(self, w: &[u64]) -> IntValue<'ctx> { unsafe { IntValue::new(LLVMConstIntOfArbitraryPrecision(self.p, w.len() as u32, w.as_ptr())) } }
        pub fn const_zero(self) -> IntValue<'ctx> { unsafe { IntValue::new(LLVMConstNull(self.p)) } }
        pub fn const_all_ones(self) -> IntValue<'ctx> { unsafe { IntValue::new(LLVMConstAllOnes(self.p)) } }
        pub fn get_undef(self) -> IntValue<'ctx> { unsafe { IntValue::new(LLVMGetUndef(self.p)) } }
        pub fn get_poison(self) -> IntValue<'ctx> { unsafe { IntValue::new(LLVMGetPoison(self.p)) } }
        pub fn const_array(self, v: &[IntValue<'ctx>]) -> ArrayValue<'ctx> {
            let mut v: Vec<P> = v.iter().map(|x| x.as_value_ref()).collect();
            unsafe { ArrayValue::new(LLVMConstArray(self.p, v.as_mut_ptr(), v.len() as u32)) }
        }
    }
    impl<'ctx> PointerType<'ctx> {
        pub fn const_null(self) -> PointerValue<'ctx> { unsafe { PointerValue::new(LLVMConstNull(self.p)) } }
        pub fn const_zero(self) -> PointerValue<'ctx> { self.const_null() }
    }
    impl<'ctx> ArrayType<'ctx> {
        pub fn len(self) -> u32 { unsafe { LLVMGetArrayLength(self.p) } }
        pub fn get_element_type(self) -> BasicTypeEnum<'ctx> { unsafe { BasicTypeEnum::new(LLVMGetElementType(self.p)) } }
        pub fn const_zero(self) -> ArrayValue<'ctx> { unsafe { ArrayValue::new(LLVMConstNull(self.p)) } }
    }
    impl<'ctx> StructType<'ctx> {
        pub fn count_fields(self) -> u32 { unsafe { LLVMCountStructElementTypes(self.p) } }
        pub fn get_field_type_at_index(self, i: u32) -> Option<BasicTypeEnum<'ctx>> {
            if i >= self.count_fields() { return None; }
            unsafe { Some(BasicTypeEnum::new(LLVMStructGetTypeAtIndex(self.p, i))) }
        }
        pub fn get_field_types(self) -> Vec<BasicTypeEnum<'ctx>> { (0..self.count_fields()).map(|i| self.get_field_type_at_index(i).unwrap()).collect() }
        pub fn const_zero(self) -> StructValue<'ctx> { unsafe { StructValue::new(LLVMConstNull(self.p)) } }
        pub fn get_undef(self) -> StructValue<'ctx> { unsafe { StructValue::new(LLVMGetUndef(self.p)) } }
    }
    impl<'ctx> FunctionType<'ctx> {
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'ctx>> {
            unsafe { let t = LLVMGetReturnType(self.p); if LLVMGetTypeKind(t) == 0 { None } else { Some(BasicTypeEnum::new(t)) } }
        }
        pub fn count_param_types(self) -> u32 { unsafe { LLVMCountParamTypes(self.p) } }
        pub fn get_param_types(self) -> Vec<BasicTypeEnum<'ctx>> {
            let mut v: Vec<P> = vec![std::ptr::null_mut(); self.count_param_types() as usize];
            unsafe { LLVMGetParamTypes(self.p, v.as_mut_ptr()); v.into_iter().map(|t| BasicTypeEnum::new(t)).collect() }
        }
    }
    macro_rules! en { ($e:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum $e<'ctx> { ArrayType(ArrayType<'ctx>), IntType(IntType<'ctx>), PointerType(PointerType<'ctx>), StructType(StructType<'ctx>) }
        unsafe impl AsTypeRef for $e<'_> {
            fn as_type_ref(&self) -> P { match self { $e::ArrayType(t) => t.p, $e::IntType(t) => t.p, $e::PointerType(t) => t.p, $e::StructType(t) => t.p } }
        }
        impl<'ctx> $e<'ctx> {
            pub unsafe fn new(p: P) -> Self {
                match LLVMGetTypeKind(p) {
                    8 => $e::IntType(IntType::new(p)), 10 => $e::StructType(StructType::new(p)),
                    11 => $e::ArrayType(ArrayType::new(p)), 12 => $e::PointerType(PointerType::new(p)),
                    k => panic!("unsupported type kind {k}"),
                }
            }
            pub fn is_int_type(self) -> bool { matches!(self, $e::IntType(_)) }
            pub fn is_array_type(self) -> bool { matches!(self, $e::ArrayType(_)) }
            pub fn is_pointer_type(self) -> bool { matches!(self, $e::PointerType(_)) }
            pub fn is_struct_type(self) -> bool { matches!(self, $e::StructType(_)) }
            pub fn is_float_type(self) -> bool { false }
            pub fn is_vector_type(self) -> bool { false }
            pub fn into_int_type(self) -> IntType<'ctx> { if let $e::IntType(t) = self { t } else { panic!("Found {:?} but expected the IntType variant", self) } }
            pub fn into_array_type(self) -> ArrayType<'ctx> { if let $e::ArrayType(t) = self { t } else { panic!("Found {:?} but expected the ArrayType variant", self) } }
            pub fn into_pointer_type(self) -> PointerType<'ctx> { if let $e::PointerType(t) = self { t } else { panic!("Found {:?} but expected the PointerType variant", self) } }
            pub fn into_struct_type(self) -> StructType<'ctx> { if let $e::StructType(t) = self { t } else { panic!("Found {:?} but expected the StructType variant", self) } }
            pub fn print_to_string(self) -> LLVMString { unsafe { LLVMString(take(LLVMPrintTypeToString(self.as_type_ref()))) } }
        }
        impl std::fmt::Display for $e<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "\"{}\"", self.print_to_string()) }
        }
        impl<'ctx> From<IntType<'ctx>> for $e<'ctx> { fn from(t: IntType<'ctx>) -> Self { $e::IntType(t) } }
        impl<'ctx> From<ArrayType<'ctx>> for $e<'ctx> { fn from(t: ArrayType<'ctx>) -> Self { $e::ArrayType(t) } }
        impl<'ctx> From<PointerType<'ctx>> for $e<'ctx> { fn from(t: PointerType<'ctx>) -> Self { $e::PointerType(t) } }
        impl<'ctx> From<StructType<'ctx>> for $e<'ctx> { fn from(t: StructType<'ctx>) -> Self { $e::StructType(t) } }
    } }
    en!(BasicTypeEnum);
    en!(BasicMetadataTypeEnum);
    en!(AnyTypeEnum);
    impl<'ctx> From<BasicTypeEnum<'ctx>> for BasicMetadataTypeEnum<'ctx> { fn from(t: BasicTypeEnum<'ctx>) -> Self { unsafe { BasicMetadataTypeEnum::new(t.as_type_ref()) } } }
    impl<'ctx> TryFrom<BasicMetadataTypeEnum<'ctx>> for BasicTypeEnum<'ctx> { type Error = (); fn try_from(t: BasicMetadataTypeEnum<'ctx>) -> Result<Self, ()> { unsafe { Ok(BasicTypeEnum::new(t.as_type_ref())) } } }
    impl<'ctx> BasicTypeEnum<'ctx> {
        pub fn const_zero(self) -> BasicValueEnum<'ctx> { unsafe { BasicValueEnum::new(LLVMConstNull(self.as_type_ref())) } }
    }
    pub trait AnyType<'ctx>: AsTypeRef {}
    impl<'ctx, T: AsTypeRef> AnyType<'ctx> for T {}
    pub unsafe trait BasicType<'ctx>: AsTypeRef {
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'ctx> { unsafe { BasicTypeEnum::new(self.as_type_ref()) } }
        fn fn_type(&self, a: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> {
            let mut v: Vec<P> = a.iter().map(|t| t.as_type_ref()).collect();
            unsafe { FunctionType::new(LLVMFunctionType(self.as_type_ref(), v.as_mut_ptr(), v.len() as u32, va as c_int)) }
        }
        fn is_sized(&self) -> bool { unsafe { LLVMTypeIsSized(self.as_type_ref()) != 0 } }
        fn array_type(&self, n: u32) -> ArrayType<'ctx> { unsafe { ArrayType::new(LLVMArrayType(self.as_type_ref(), n)) } }
        fn ptr_type(&self, a: AddressSpace) -> PointerType<'ctx> { unsafe { PointerType::new(LLVMPointerTypeInContext(LLVMGetTypeContext(self.as_type_ref()), a.0)) } }
    }
    unsafe impl<'ctx> BasicType<'ctx> for IntType<'ctx> {}
    unsafe impl<'ctx> BasicType<'ctx> for ArrayType<'ctx> {}
    unsafe impl<'ctx> BasicType<'ctx> for PointerType<'ctx> {}
    unsafe impl<'ctx> BasicType<'ctx> for StructType<'ctx> {}
    unsafe impl<'ctx> BasicType<'ctx> for BasicTypeEnum<'ctx> {}
}

pub mod values {
    use super::*;
    use super::{basic_block::BasicBlock, types::*, module::Linkage};
    pub unsafe trait AsValueRef { fn as_value_ref(&self) -> P; }
    unsafe fn name_of(p: P) -> &'static CStr { let mut n = 0; CStr::from_ptr(LLVMGetValueName2(p, &mut n)) }
    macro_rules! val { ($($n:ident),*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $n<'ctx> { p: P, m: PhantomData<&'ctx ()> }
        impl<'ctx> $n<'ctx> {
            pub unsafe fn new(p: P) -> Self { assert!(!p.is_null()); $n { p, m: PhantomData } }
            pub unsafe fn opt(p: P) -> Option<Self> { if p.is_null() { None } else { Some($n { p, m: PhantomData }) } }
            pub fn print_to_string(self) -> LLVMString { unsafe { LLVMString(take(LLVMPrintValueToString(self.p))) } }
            pub fn get_name(&self) -> &CStr { unsafe { name_of(self.p) } }
            pub fn set_name(&self, s: &str) { unsafe { LLVMSetValueName2(self.p, s.as_ptr() as *const c_char, s.len()) } }
        }
        unsafe impl AsValueRef for $n<'_> { fn as_value_ref(&self) -> P { self.p } }
        impl std::fmt::Debug for $n<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}({:?})", stringify!($n), self.p) }
        }
        impl std::fmt::Display for $n<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "\"{}\"", self.print_to_string()) }
        }
    )* } }
    val!(IntValue, PointerValue, ArrayValue, StructValue, FunctionValue, GlobalValue, CallSiteValue, InstructionValue, PhiValue);
    macro_rules! bval { ($($n:ident),*) => { $(
        impl<'ctx> $n<'ctx> {
            pub fn is_const(self) -> bool { unsafe { LLVMIsConstant(self.p) != 0 } }
            pub fn is_null(self) -> bool { unsafe { LLVMIsNull(self.p) != 0 } }
            pub fn is_undef(self) -> bool { unsafe { LLVMIsUndef(self.p) != 0 } }
        }
        unsafe impl<'ctx> BasicValue<'ctx> for $n<'ctx> {}
        unsafe impl<'ctx> AggOrNot for $n<'ctx> {}
    )* } }
    pub unsafe trait AggOrNot {}
    bval!(IntValue, PointerValue, ArrayValue, StructValue);
    pub trait AnyValue<'ctx>: AsValueRef {}
    impl<'ctx, T: AsValueRef> AnyValue<'ctx> for T {}
    pub unsafe trait BasicValue<'ctx>: AsValueRef {
        fn as_basic_value_enum(&self) -> BasicValueEnum<'ctx> { unsafe { BasicValueEnum::new(self.as_value_ref()) } }
        fn as_instruction_value(&self) -> Option<InstructionValue<'ctx>> { None }
    }
    unsafe impl<'ctx> BasicValue<'ctx> for BasicValueEnum<'ctx> {}
    unsafe impl<'ctx> BasicValue<'ctx> for GlobalValue<'ctx> {}
    impl<'ctx> IntValue<'ctx> {
        pub fn get_type(self) -> IntType<'ctx> { unsafe { IntType::new(LLVMTypeOf(self.p)) } }
        pub fn is_constant_int(self) -> bool { unsafe { !LLVMIsAConstantInt(self.p).is_null() } }
        pub fn get_zero_extended_constant(self) -> Option<u64> {
            if !self.is_constant_int() || self.get_type().get_bit_width() > 64 { return None; }
            unsafe { Some(LLVMConstIntGetZExtValue(self.p)) }
        }
        pub fn get_sign_extended_constant(self) -> Option<i64> {
            if !self.is_constant_int() || self.get_type().get_bit_width() > 64 { return None; }
            unsafe { Some(LLVMConstIntGetSExtValue(self.p)) }
        }
    }
    impl<'ctx> PointerValue<'ctx> { pub fn get_type(self) -> PointerType<'ctx> { unsafe { PointerType::new(LLVMTypeOf(self.p)) } } }
    impl<'ctx> ArrayValue<'ctx> { pub fn get_type(self) -> ArrayType<'ctx> { unsafe { ArrayType::new(LLVMTypeOf(self.p)) } } }
    impl<'ctx> StructValue<'ctx> { pub fn get_type(self) -> StructType<'ctx> { unsafe { StructType::new(LLVMTypeOf(self.p)) } } }
    impl<'ctx> FunctionValue<'ctx> {
        pub fn get_type(self) -> FunctionType<'ctx> { unsafe { FunctionType::new(LLVMGlobalGetValueType(self.p)) } }
        pub fn count_params(self) -> u32 { unsafe { LLVMCountParams(self.p) } }
        pub fn get_nth_param(self, i: u32) -> Option<BasicValueEnum<'ctx>> {
            if i >= self.count_params() { return None; }
            unsafe { Some(BasicValueEnum::new(LLVMGetParam(self.p, i))) }
        }
        pub fn get_params(self) -> Vec<BasicValueEnum<'ctx>> { (0..self.count_params()).map(|i| self.get_nth_param(i).unwrap()).collect() }
        pub fn get_param_iter(self) -> std::vec::IntoIter<BasicValueEnum<'ctx>> { self.get_params().into_iter() }
        pub fn get_first_param(self) -> Option<BasicValueEnum<'ctx>> { self.get_nth_param(0) }
        pub fn get_first_basic_block(self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::new(LLVMGetFirstBasicBlock(self.p)) } }
        pub fn get_last_basic_block(self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::new(LLVMGetLastBasicBlock(self.p)) } }
        pub fn count_basic_blocks(self) -> u32 { unsafe { LLVMCountBasicBlocks(self.p) } }
        pub fn verify(self, _print: bool) -> bool { unsafe { LLVMVerifyFunction(self.p, 2) == 0 } }
        pub fn set_linkage(self, l: Linkage) { unsafe { LLVMSetLinkage(self.p, l as u32) } }
        pub fn as_global_value(self) -> GlobalValue<'ctx> { unsafe { GlobalValue::new(self.p) } }
        pub unsafe fn delete(self) { LLVMDeleteFunction(self.p) }
    }
    impl<'ctx> GlobalValue<'ctx> {
        pub fn set_initializer(self, v: &dyn BasicValue<'ctx>) { unsafe { LLVMSetInitializer(self.p, v.as_value_ref()) } }
        pub fn get_initializer(self) -> Option<BasicValueEnum<'ctx>> { unsafe { let v = LLVMGetInitializer(self.p); if v.is_null() { None } else { Some(BasicValueEnum::new(v)) } } }
        pub fn as_pointer_value(self) -> PointerValue<'ctx> { unsafe { PointerValue::new(self.p) } }
        pub fn set_constant(self, c: bool) { unsafe { LLVMSetGlobalConstant(self.p, c as c_int) } }
        pub fn is_constant(self) -> bool { unsafe { LLVMIsGlobalConstant(self.p) != 0 } }
        pub fn set_unnamed_addr(self, c: bool) { unsafe { LLVMSetUnnamedAddress(self.p, if c { 2 } else { 0 }) } }
        pub fn set_alignment(self, a: u32) { unsafe { LLVMSetAlignment(self.p, a) } }
        pub fn set_linkage(self, l: Linkage) { unsafe { LLVMSetLinkage(self.p, l as u32) } }
    }
    impl<'ctx> InstructionValue<'ctx> {
        pub fn get_parent(self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::new(LLVMGetInstructionParent(self.p)) } }
        pub fn erase_from_basic_block(self) { unsafe { LLVMInstructionEraseFromParent(self.p) } }
        pub fn set_alignment(&self, a: u32) -> Result<(), &'static str> { unsafe { LLVMSetAlignment(self.p, a) }; Ok(()) }
    }
    impl<'ctx> PhiValue<'ctx> {
        pub fn add_incoming(self, inc: &[(&dyn BasicValue<'ctx>, BasicBlock<'ctx>)]) {
            let mut v: Vec<P> = inc.iter().map(|x| x.0.as_value_ref()).collect();
            let mut b: Vec<P> = inc.iter().map(|x| x.1.p).collect();
            unsafe { LLVMAddIncoming(self.p, v.as_mut_ptr(), b.as_mut_ptr(), v.len() as u32) }
        }
        pub fn as_basic_value(self) -> BasicValueEnum<'ctx> { unsafe { BasicValueEnum::new(self.p) } }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Either<L, R> { Left(L), Right(R) }
    impl<L, R> Either<L, R> {
        pub fn left(self) -> Option<L> { if let Either::Left(l) = self { Some(l) } else { None } }
        pub fn right(self) -> Option<R> { if let Either::Right(r) = self { Some(r) } else { None } }
        pub fn is_left(&self) -> bool { matches!(self, Either::Left(_)) }
        pub fn is_right(&self) -> bool { matches!(self, Either::Right(_)) }
        pub fn unwrap_left(self) -> L { self.left().unwrap() }
        pub fn expect_left(self, m: &str) -> L { self.left().expect(m) }
        pub fn left_or_else<F: FnOnce(R) -> L>(self, f: F) -> L { match self { Either::Left(l) => l, Either::Right(r) => f(r) } }
    }
    impl<'ctx> CallSiteValue<'ctx> {
        pub fn try_as_basic_value(self) -> Either<BasicValueEnum<'ctx>, InstructionValue<'ctx>> {
            unsafe {
                if LLVMGetTypeKind(LLVMTypeOf(self.p)) == 0 { Either::Right(InstructionValue::new(self.p)) } else { Either::Left(BasicValueEnum::new(self.p)) }
            }
        }
    }
    macro_rules! en { ($e:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum $e<'ctx> { ArrayValue(ArrayValue<'ctx>), IntValue(IntValue<'ctx>), PointerValue(PointerValue<'ctx>), StructValue(StructValue<'ctx>) }
        unsafe impl AsValueRef for $e<'_> {
            fn as_value_ref(&self) -> P { match self { $e::ArrayValue(t) => t.p, $e::IntValue(t) => t.p, $e::PointerValue(t) => t.p, $e::StructValue(t) => t.p } }
        }
        impl<'ctx> $e<'ctx> {
            pub unsafe fn new(p: P) -> Self {
                assert!(!p.is_null());
                match LLVMGetTypeKind(LLVMTypeOf(p)) {
                    8 => $e::IntValue(IntValue::new(p)), 10 => $e::StructValue(StructValue::new(p)),
                    11 => $e::ArrayValue(ArrayValue::new(p)), 12 => $e::PointerValue(PointerValue::new(p)),
                    k => panic!("unsupported value of type kind {k}"),
                }
            }
            pub fn is_int_value(self) -> bool { matches!(self, $e::IntValue(_)) }
            pub fn is_array_value(self) -> bool { matches!(self, $e::ArrayValue(_)) }
            pub fn is_pointer_value(self) -> bool { matches!(self, $e::PointerValue(_)) }
            pub fn is_struct_value(self) -> bool { matches!(self, $e::StructValue(_)) }
            pub fn into_int_value(self) -> IntValue<'ctx> { if let $e::IntValue(t) = self { t } else { panic!("Found {:?} but expected the IntValue variant", self) } }
            pub fn into_array_value(self) -> ArrayValue<'ctx> { if let $e::ArrayValue(t) = self { t } else { panic!("Found {:?} but expected the ArrayValue variant", self) } }
            pub fn into_pointer_value(self) -> PointerValue<'ctx> { if let $e::PointerValue(t) = self { t } else { panic!("Found {:?} but expected the PointerValue variant", self) } }
            pub fn into_struct_value(self) -> StructValue<'ctx> { if let $e::StructValue(t) = self { t } else { panic!("Found {:?} but expected the StructValue variant", self) } }
            pub fn get_type(&self) -> BasicTypeEnum<'ctx> { unsafe { BasicTypeEnum::new(LLVMTypeOf(self.as_value_ref())) } }
            pub fn print_to_string(self) -> LLVMString { unsafe { LLVMString(take(LLVMPrintValueToString(self.as_value_ref()))) } }
            pub fn set_name(&self, s: &str) { unsafe { LLVMSetValueName2(self.as_value_ref(), s.as_ptr() as *const c_char, s.len()) } }
        }
        impl std::fmt::Display for $e<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "\"{}\"", self.print_to_string()) }
        }
        impl<'ctx> From<IntValue<'ctx>> for $e<'ctx> { fn from(t: IntValue<'ctx>) -> Self { $e::IntValue(t) } }
        impl<'ctx> From<ArrayValue<'ctx>> for $e<'ctx> { fn from(t: ArrayValue<'ctx>) -> Self { $e::ArrayValue(t) } }
        impl<'ctx> From<PointerValue<'ctx>> for $e<'ctx> { fn from(t: PointerValue<'ctx>) -> Self { $e::PointerValue(t) } }
        impl<'ctx> From<StructValue<'ctx>> for $e<'ctx> { fn from(t: StructValue<'ctx>) -> Self { $e::StructValue(t) } }
    } }
    en!(BasicValueEnum);
    en!(BasicMetadataValueEnum);
    impl<'ctx> From<BasicValueEnum<'ctx>> for BasicMetadataValueEnum<'ctx> { fn from(t: BasicValueEnum<'ctx>) -> Self { unsafe { BasicMetadataValueEnum::new(t.as_value_ref()) } } }
    impl<'ctx> TryFrom<BasicMetadataValueEnum<'ctx>> for BasicValueEnum<'ctx> { type Error = (); fn try_from(t: BasicMetadataValueEnum<'ctx>) -> Result<Self, ()> { unsafe { Ok(BasicValueEnum::new(t.as_value_ref())) } } }
    impl<'ctx> TryFrom<BasicValueEnum<'ctx>> for IntValue<'ctx> { type Error = (); fn try_from(t: BasicValueEnum<'ctx>) -> Result<Self, ()> { if let BasicValueEnum::IntValue(v) = t { Ok(v) } else { Err(()) } } }
    impl<'ctx> TryFrom<BasicValueEnum<'ctx>> for PointerValue<'ctx> { type Error = (); fn try_from(t: BasicValueEnum<'ctx>) -> Result<Self, ()> { if let BasicValueEnum::PointerValue(v) = t { Ok(v) } else { Err(()) } } }
    pub trait IntMathValue<'ctx>: BasicValue<'ctx> + Copy { unsafe fn mk(p: P) -> Self; }
    impl<'ctx> IntMathValue<'ctx> for IntValue<'ctx> { unsafe fn mk(p: P) -> Self { IntValue::new(p) } }
    pub trait AggregateValue<'ctx>: BasicValue<'ctx> {}
    impl<'ctx> AggregateValue<'ctx> for StructValue<'ctx> {}
    impl<'ctx> AggregateValue<'ctx> for ArrayValue<'ctx> {}
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum AggregateValueEnum<'ctx> { ArrayValue(ArrayValue<'ctx>), StructValue(StructValue<'ctx>) }
    unsafe impl AsValueRef for AggregateValueEnum<'_> { fn as_value_ref(&self) -> P { match self { AggregateValueEnum::ArrayValue(t) => t.p, AggregateValueEnum::StructValue(t) => t.p } } }
    unsafe impl<'ctx> BasicValue<'ctx> for AggregateValueEnum<'ctx> {}
    impl<'ctx> AggregateValueEnum<'ctx> {
        pub(crate) unsafe fn new(p: P) -> Self { if LLVMGetTypeKind(LLVMTypeOf(p)) == 11 { Self::ArrayValue(ArrayValue::new(p)) } else { Self::StructValue(StructValue::new(p)) } }
        pub fn into_struct_value(self) -> StructValue<'ctx> { if let Self::StructValue(v) = self { v } else { panic!() } }
        pub fn into_array_value(self) -> ArrayValue<'ctx> { if let Self::ArrayValue(v) = self { v } else { panic!() } }
    }
}

pub mod builder {
    use super::*;
    use super::{basic_block::BasicBlock, types::*, values::*};
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum BuilderError { UnsetPosition, AlignmentError(&'static str), ExtractOutOfRange, BitwidthError(&'static str), PointeeTypeMismatch(&'static str), ValueTypeMismatch(&'static str), OrderingError(&'static str), GEPPointee, GEPIndex }
    impl std::fmt::Display for BuilderError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) }
    }
    impl std::error::Error for BuilderError {}
    #[derive(Debug)]
    pub struct Builder<'ctx> { pub(crate) p: P, pub(crate) m: PhantomData<&'ctx ()> }
    type R<T> = Result<T, BuilderError>;
    macro_rules! bin { ($($n:ident $op:expr;)*) => { $(
        pub fn $n<T: IntMathValue<'ctx>>(&self, x: T, y: T, name: &str) -> R<T> {
            self.at()?;
            unsafe { Ok(T::mk(LLVMBuildBinOp(self.p, $op, x.as_value_ref(), y.as_value_ref(), cs(name).as_ptr()))) }
        }
    )* } }
    macro_rules! cast { ($($n:ident $op:expr;)*) => { $(
        pub fn $n<T: IntMathValue<'ctx>>(&self, x: T, t: IntType<'ctx>, name: &str) -> R<T> {
            self.at()?;
            unsafe { Ok(T::mk(LLVMBuildCast(self.p, $op, x.as_value_ref(), t.as_type_ref(), cs(name).as_ptr()))) }
        }
    )* } }
    impl<'ctx> Builder<'ctx> {
        fn at(&self) -> R<()> { unsafe { if LLVMGetInsertBlock(self.p).is_null() { Err(BuilderError::UnsetPosition) } else { Ok(()) } } }
        pub fn position_at_end(&self, b: BasicBlock<'ctx>) { unsafe { LLVMPositionBuilderAtEnd(self.p, b.p) } }
        pub fn position_before(&self, i: &InstructionValue<'ctx>) { unsafe { LLVMPositionBuilderBefore(self.p, i.as_value_ref()) } }
        pub fn get_insert_block(&self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::new(LLVMGetInsertBlock(self.p)) } }
        pub fn build_call(&self, f: FunctionValue<'ctx>, args: &[BasicMetadataValueEnum<'ctx>], name: &str) -> R<CallSiteValue<'ctx>> {
            self.at()?;
            let mut v: Vec<P> = args.iter().map(|x| x.as_value_ref()).collect();
            let ft = f.get_type();
            let void = ft.get_return_type().is_none();
            let name = if void { "" } else { name };
            unsafe { Ok(CallSiteValue::new(LLVMBuildCall2(self.p, ft.as_type_ref(), f.as_value_ref(), v.as_mut_ptr(), v.len() as u32, cs(name).as_ptr()))) }
        }
        pub fn build_direct_call(&self, f: FunctionValue<'ctx>, args: &[BasicMetadataValueEnum<'ctx>], name: &str) -> R<CallSiteValue<'ctx>> { self.build_call(f, args, name) }
        pub fn build_load<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, name: &str) -> R<BasicValueEnum<'ctx>> {
            self.at()?;
            unsafe { Ok(BasicValueEnum::new(LLVMBuildLoad2(self.p, t.as_type_ref(), p.as_value_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_store<V: BasicValue<'ctx>>(&self, p: PointerValue<'ctx>, v: V) -> R<InstructionValue<'ctx>> {
            self.at()?;
            unsafe { Ok(InstructionValue::new(LLVMBuildStore(self.p, v.as_value_ref(), p.as_value_ref()))) }
        }
        pub fn build_alloca<T: BasicType<'ctx>>(&self, t: T, name: &str) -> R<PointerValue<'ctx>> {
            self.at()?;
            unsafe { Ok(PointerValue::new(LLVMBuildAlloca(self.p, t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_array_alloca<T: BasicType<'ctx>>(&self, t: T, n: IntValue<'ctx>, name: &str) -> R<PointerValue<'ctx>> {
            self.at()?;
            unsafe { Ok(PointerValue::new(LLVMBuildArrayAlloca(self.p, t.as_type_ref(), n.as_value_ref(), cs(name).as_ptr()))) }
        }
        bin! { build_int_add 8; build_int_sub 10; build_int_mul 12; build_int_unsigned_div 14; build_int_signed_div 15;
               build_int_unsigned_rem 17; build_int_signed_rem 18; build_left_shift 20; build_and 23; build_or 24; build_xor 25; }
        pub fn build_right_shift<T: IntMathValue<'ctx>>(&self, x: T, y: T, sign: bool, name: &str) -> R<T> {
            self.at()?;
            unsafe { Ok(T::mk(LLVMBuildBinOp(self.p, if sign { 22 } else { 21 }, x.as_value_ref(), y.as_value_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_not<T: IntMathValue<'ctx>>(&self, x: T, name: &str) -> R<T> { self.at()?; unsafe { Ok(T::mk(LLVMBuildNot(self.p, x.as_value_ref(), cs(name).as_ptr()))) } }
        pub fn build_int_neg<T: IntMathValue<'ctx>>(&self, x: T, name: &str) -> R<T> { self.at()?; unsafe { Ok(T::mk(LLVMBuildNeg(self.p, x.as_value_ref(), cs(name).as_ptr()))) } }
        pub fn build_int_compare<T: IntMathValue<'ctx>>(&self, op: IntPredicate, x: T, y: T, name: &str) -> R<IntValue<'ctx>> {
            self.at()?;
            unsafe { Ok(IntValue::new(LLVMBuildICmp(self.p, op as u32, x.as_value_ref(), y.as_value_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_is_null(&self, x: PointerValue<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.at()?;
            unsafe { Ok(IntValue::new(LLVMBuildICmp(self.p, 32, x.as_value_ref(), LLVMConstNull(LLVMTypeOf(x.as_value_ref())), cs(name).as_ptr()))) }
        }
        cast! { build_int_z_extend 31; build_int_s_extend 32; build_int_truncate 30; }
        pub fn build_int_z_extend_or_bit_cast<T: IntMathValue<'ctx>>(&self, x: T, t: IntType<'ctx>, name: &str) -> R<T> {
            self.at()?; unsafe { Ok(T::mk(LLVMBuildZExtOrBitCast(self.p, x.as_value_ref(), t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_int_truncate_or_bit_cast<T: IntMathValue<'ctx>>(&self, x: T, t: IntType<'ctx>, name: &str) -> R<T> {
            self.at()?; unsafe { Ok(T::mk(LLVMBuildTruncOrBitCast(self.p, x.as_value_ref(), t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_int_cast<T: IntMathValue<'ctx>>(&self, x: T, t: IntType<'ctx>, name: &str) -> R<T> {
            self.at()?; unsafe { Ok(T::mk(LLVMBuildIntCast(self.p, x.as_value_ref(), t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_int_cast_sign_flag<T: IntMathValue<'ctx>>(&self, x: T, t: IntType<'ctx>, signed: bool, name: &str) -> R<T> {
            self.at()?; unsafe { Ok(T::mk(LLVMBuildIntCast2(self.p, x.as_value_ref(), t.as_type_ref(), signed as c_int, cs(name).as_ptr()))) }
        }
        pub fn build_ptr_to_int(&self, x: PointerValue<'ctx>, t: IntType<'ctx>, name: &str) -> R<IntValue<'ctx>> {
            self.at()?; unsafe { Ok(IntValue::new(LLVMBuildCast(self.p, 39, x.as_value_ref(), t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_int_to_ptr(&self, x: IntValue<'ctx>, t: PointerType<'ctx>, name: &str) -> R<PointerValue<'ctx>> {
            self.at()?; unsafe { Ok(PointerValue::new(LLVMBuildCast(self.p, 40, x.as_value_ref(), t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_pointer_cast(&self, x: PointerValue<'ctx>, _t: PointerType<'ctx>, _name: &str) -> R<PointerValue<'ctx>> { Ok(x) }
        pub fn build_bit_cast<T: BasicType<'ctx>, V: BasicValue<'ctx>>(&self, x: V, t: T, name: &str) -> R<BasicValueEnum<'ctx>> {
            self.at()?; unsafe { Ok(BasicValueEnum::new(LLVMBuildCast(self.p, 41, x.as_value_ref(), t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_select<V: BasicValue<'ctx>>(&self, c: IntValue<'ctx>, x: V, y: V, name: &str) -> R<BasicValueEnum<'ctx>> {
            self.at()?; unsafe { Ok(BasicValueEnum::new(LLVMBuildSelect(self.p, c.as_value_ref(), x.as_value_ref(), y.as_value_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_phi<T: BasicType<'ctx>>(&self, t: T, name: &str) -> R<PhiValue<'ctx>> {
            self.at()?; unsafe { Ok(PhiValue::new(LLVMBuildPhi(self.p, t.as_type_ref(), cs(name).as_ptr()))) }
        }
        pub fn build_struct_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: u32, name: &str) -> R<PointerValue<'ctx>> {
            self.at()?;
            let t = t.as_basic_type_enum();
            if !t.is_struct_type() { return Err(BuilderError::GEPPointee); }
            if i >= t.into_struct_type().count_fields() { return Err(BuilderError::GEPIndex); }
            unsafe { Ok(PointerValue::new(LLVMBuildStructGEP2(self.p, t.as_type_ref(), p.as_value_ref(), i, cs(name).as_ptr()))) }
        }
        pub unsafe fn build_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: &[IntValue<'ctx>], name: &str) -> R<PointerValue<'ctx>> {
            self.at()?;
            let mut v: Vec<P> = i.iter().map(|x| x.as_value_ref()).collect();
            Ok(PointerValue::new(LLVMBuildGEP2(self.p, t.as_type_ref(), p.as_value_ref(), v.as_mut_ptr(), v.len() as u32, cs(name).as_ptr())))
        }
        pub unsafe fn build_in_bounds_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: &[IntValue<'ctx>], name: &str) -> R<PointerValue<'ctx>> {
            self.at()?;
            let mut v: Vec<P> = i.iter().map(|x| x.as_value_ref()).collect();
            Ok(PointerValue::new(LLVMBuildInBoundsGEP2(self.p, t.as_type_ref(), p.as_value_ref(), v.as_mut_ptr(), v.len() as u32, cs(name).as_ptr())))
        }
        pub fn build_extract_value<A: AggregateValue<'ctx>>(&self, a: A, i: u32, name: &str) -> R<BasicValueEnum<'ctx>> {
            self.at()?; unsafe { Ok(BasicValueEnum::new(LLVMBuildExtractValue(self.p, a.as_value_ref(), i, cs(name).as_ptr()))) }
        }
        pub fn build_insert_value<A: AggregateValue<'ctx>, V: BasicValue<'ctx>>(&self, a: A, v: V, i: u32, name: &str) -> R<AggregateValueEnum<'ctx>> {
            self.at()?; unsafe { Ok(AggregateValueEnum::new(LLVMBuildInsertValue(self.p, a.as_value_ref(), v.as_value_ref(), i, cs(name).as_ptr()))) }
        }
        pub fn build_return(&self, v: Option<&dyn BasicValue<'ctx>>) -> R<InstructionValue<'ctx>> {
            self.at()?;
            unsafe { Ok(InstructionValue::new(match v { Some(v) => LLVMBuildRet(self.p, v.as_value_ref()), None => LLVMBuildRetVoid(self.p) })) }
        }
        pub fn build_aggregate_return(&self, v: &[BasicValueEnum<'ctx>]) -> R<InstructionValue<'ctx>> {
            self.at()?;
            let mut v: Vec<P> = v.iter().map(|x| x.as_value_ref()).collect();
            unsafe { Ok(InstructionValue::new(LLVMBuildAggregateRet(self.p, v.as_mut_ptr(), v.len() as u32))) }
        }
        pub fn build_unconditional_branch(&self, b: BasicBlock<'ctx>) -> R<InstructionValue<'ctx>> { self.at()?; unsafe { Ok(InstructionValue::new(LLVMBuildBr(self.p, b.p))) } }
        pub fn build_conditional_branch(&self, c: IntValue<'ctx>, t: BasicBlock<'ctx>, e: BasicBlock<'ctx>) -> R<InstructionValue<'ctx>> {
            self.at()?; unsafe { Ok(InstructionValue::new(LLVMBuildCondBr(self.p, c.as_value_ref(), t.p, e.p))) }
        }
        pub fn build_switch(&self, v: IntValue<'ctx>, e: BasicBlock<'ctx>, cases: &[(IntValue<'ctx>, BasicBlock<'ctx>)]) -> R<InstructionValue<'ctx>> {
            self.at()?;
            unsafe {
                let s = LLVMBuildSwitch(self.p, v.as_value_ref(), e.p, cases.len() as u32);
                for (k, b) in cases { LLVMAddCase(s, k.as_value_ref(), b.p); }
                Ok(InstructionValue::new(s))
            }
        }
        pub fn build_unreachable(&self) -> R<InstructionValue<'ctx>> { self.at()?; unsafe { Ok(InstructionValue::new(LLVMBuildUnreachable(self.p))) } }
        pub fn build_global_string_ptr(&self, s: &str, name: &str) -> R<GlobalValue<'ctx>> { self.at()?; unsafe { Ok(GlobalValue::new(LLVMBuildGlobalStringPtr(self.p, cs(s).as_ptr(), cs(name).as_ptr()))) } }
    }
}

pub mod module {
    use super::*;
    use super::{memory_buffer::MemoryBuffer, types::*, values::*};
    use std::path::Path;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Linkage { External = 0, AvailableExternally = 1, LinkOnceAny = 2, LinkOnceODR = 3, WeakAny = 5, WeakODR = 6, Appending = 7, Internal = 8, Private = 9, ExternalWeak = 12, Common = 14 }
    #[derive(Debug)]
    pub struct Module<'ctx> { pub(crate) p: P, pub(crate) c: P, m: PhantomData<&'ctx ()> }
    impl<'ctx> Module<'ctx> {
        pub(crate) unsafe fn new(p: P, c: P) -> Self { Module { p, c, m: PhantomData } }
        pub fn parse_bitcode_from_buffer(b: &MemoryBuffer, c: impl Into<&'ctx context::Context>) -> Result<Self, LLVMString> {
            let c: &context::Context = c.into();
            let mut m: P = std::ptr::null_mut();
            unsafe {
                if LLVMParseBitcodeInContext2(c.p, b.p, &mut m) != 0 { return Err(LLVMString("invalid bitcode".into())); }
                Ok(Module::new(m, c.p))
            }
        }
        pub fn link_in_module(&self, o: Self) -> Result<(), LLVMString> {
            unsafe { if LLVMLinkModules2(self.p, o.p) != 0 { Err(LLVMString("link error".into())) } else { Ok(()) } }
        }
        pub fn add_function(&self, n: &str, t: FunctionType<'ctx>, l: Option<Linkage>) -> FunctionValue<'ctx> {
            unsafe {
                let f = FunctionValue::new(LLVMAddFunction(self.p, cs(n).as_ptr(), t.as_type_ref()));
                if let Some(l) = l { f.set_linkage(l) }
                f
            }
        }
        pub fn get_function(&self, n: &str) -> Option<FunctionValue<'ctx>> { unsafe { FunctionValue::opt(LLVMGetNamedFunction(self.p, cs(n).as_ptr())) } }
        pub fn get_functions(&self) -> std::vec::IntoIter<FunctionValue<'ctx>> {
            let mut v = vec![];
            unsafe { let mut f = LLVMGetFirstFunction(self.p); while !f.is_null() { v.push(FunctionValue::new(f)); f = LLVMGetNextFunction(f); } }
            v.into_iter()
        }
        pub fn get_global(&self, n: &str) -> Option<GlobalValue<'ctx>> { unsafe { GlobalValue::opt(LLVMGetNamedGlobal(self.p, cs(n).as_ptr())) } }
        pub fn add_global<T: BasicType<'ctx>>(&self, t: T, a: Option<AddressSpace>, n: &str) -> GlobalValue<'ctx> {
            unsafe { GlobalValue::new(match a { Some(a) => LLVMAddGlobalInAddressSpace(self.p, t.as_type_ref(), cs(n).as_ptr(), a.0), None => LLVMAddGlobal(self.p, t.as_type_ref(), cs(n).as_ptr()) }) }
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut msg: *mut c_char = std::ptr::null_mut();
            unsafe { let r = LLVMVerifyModule(self.p, 2, &mut msg); let s = take(msg); if r != 0 { Err(LLVMString(s)) } else { Ok(()) } }
        }
        pub fn print_to_string(&self) -> LLVMString { unsafe { LLVMString(take(LLVMPrintModuleToString(self.p))) } }
        pub fn print_to_file<Q: AsRef<Path>>(&self, p: Q) -> Result<(), LLVMString> { std::fs::write(p, self.print_to_string().0).map_err(|e| LLVMString(e.to_string())) }
        pub fn write_bitcode_to_memory(&self) -> MemoryBuffer { unsafe { MemoryBuffer { p: LLVMWriteBitcodeToMemoryBuffer(self.p) } } }
        pub fn set_triple(&self, t: &targets::TargetTriple) { unsafe { LLVMSetTarget(self.p, cs(&t.0).as_ptr()) } }
    }
}

pub mod passes {
    //! The optimisation passes of the LLVM pass manager are part of LLVM, not of the code generator: not run here.
    use super::module::Module;
    use super::OptimizationLevel;
    pub struct PassManagerBuilder;
    impl PassManagerBuilder {
        pub fn create() -> Self { PassManagerBuilder }
        pub fn set_optimization_level(&self, _l: OptimizationLevel) {}
        pub fn set_inliner_with_threshold(&self, _n: u32) {}
        pub fn set_size_level(&self, _n: u32) {}
        pub fn set_disable_unit_at_a_time(&self, _n: bool) {}
        pub fn set_disable_unroll_loops(&self, _n: bool) {}
        pub fn set_disable_simplify_lib_calls(&self, _n: bool) {}
        pub fn populate_module_pass_manager<T>(&self, _p: &PassManager<T>) {}
        pub fn populate_function_pass_manager<T>(&self, _p: &PassManager<T>) {}
    }
    pub struct PassManager<T>(std::marker::PhantomData<T>);
    macro_rules! passes { ($($n:ident)*) => { impl<T> PassManager<T> { $( pub fn $n(&self) {} )* } } }
    passes! { add_argument_promotion_pass add_constant_merge_pass add_merge_functions_pass add_dead_arg_elimination_pass add_function_attrs_pass
        add_function_inlining_pass add_always_inliner_pass add_global_dce_pass add_global_optimizer_pass add_ipsccp_pass add_strip_dead_prototypes_pass
        add_strip_symbol_pass add_loop_vectorize_pass add_slp_vectorize_pass add_aggressive_dce_pass add_bit_tracking_dce_pass add_alignment_from_assumptions_pass
        add_cfg_simplification_pass add_dead_store_elimination_pass add_scalarizer_pass add_merged_load_store_motion_pass add_gvn_pass add_new_gvn_pass
        add_ind_var_simplify_pass add_instruction_combining_pass add_instruction_simplify_pass add_jump_threading_pass add_licm_pass add_loop_deletion_pass
        add_loop_idiom_pass add_loop_rotate_pass add_loop_reroll_pass add_loop_unroll_pass add_loop_unswitch_pass add_memcpy_optimize_pass
        add_partially_inline_lib_calls_pass add_lower_switch_pass add_promote_memory_to_register_pass add_demote_memory_to_register_pass add_reassociate_pass
        add_sccp_pass add_scalar_repl_aggregates_pass add_scalar_repl_aggregates_pass_ssa add_simplify_lib_calls_pass add_tail_call_elimination_pass
        add_verifier_pass add_correlated_value_propagation_pass add_early_cse_pass add_early_cse_mem_ssa_pass add_lower_expect_intrinsic_pass
        add_type_based_alias_analysis_pass add_scoped_no_alias_aa_pass add_basic_alias_analysis_pass add_aggressive_inst_combiner_pass add_loop_unroll_and_jam_pass
        add_internalize_pass_all add_prune_eh_pass }
    impl<T> PassManager<T> {
        pub fn create(_t: T) -> Self { PassManager(std::marker::PhantomData) }
        pub fn run_on(&self, _m: &Module<'_>) -> bool { true }
        pub fn add_internalize_pass(&self, _all: bool) {}
    }
}

pub mod targets {
    use super::*;
    use super::{memory_buffer::MemoryBuffer, module::Module};
    #[derive(Debug, Default, Clone, Copy)]
    pub struct InitializationConfig;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct TargetTriple(pub(crate) String);
    impl TargetTriple { pub fn create(s: &str) -> Self { TargetTriple(s.into()) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CodeModel { Default = 0, JITDefault, Small, Kernel, Medium, Large }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RelocMode { Default = 0, Static, PIC, DynamicNoPic }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum FileType { Assembly = 0, Object = 1 }
    pub struct Target(P);
    pub struct TargetMachine(P);
    impl Target {
        pub fn initialize_webassembly(_c: &InitializationConfig) {
            unsafe {
                LLVMInitializeWebAssemblyTargetInfo(); LLVMInitializeWebAssemblyTarget(); LLVMInitializeWebAssemblyTargetMC();
                LLVMInitializeWebAssemblyAsmPrinter(); LLVMInitializeWebAssemblyAsmParser();
            }
        }
        pub fn from_name(n: &str) -> Option<Self> { unsafe { let p = LLVMGetTargetFromName(cs(n).as_ptr()); if p.is_null() { None } else { Some(Target(p)) } } }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, f: &str, l: OptimizationLevel, r: RelocMode, c: CodeModel) -> Option<TargetMachine> {
            unsafe {
                let p = LLVMCreateTargetMachine(self.0, cs(&t.0).as_ptr(), cs(cpu).as_ptr(), cs(f).as_ptr(), l as u32, r as u32, c as u32);
                if p.is_null() { None } else { Some(TargetMachine(p)) }
            }
        }
    }
    impl TargetMachine {
        pub fn write_to_memory_buffer(&self, m: &Module<'_>, k: FileType) -> Result<MemoryBuffer, LLVMString> {
            let (mut e, mut b): (*mut c_char, P) = (std::ptr::null_mut(), std::ptr::null_mut());
            unsafe {
                if LLVMTargetMachineEmitToMemoryBuffer(self.0, m.p, k as u32, &mut e, &mut b) != 0 { return Err(LLVMString(take(e))); }
                Ok(MemoryBuffer { p: b })
            }
        }
    }
}
