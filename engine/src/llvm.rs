//! Hand-written bindings to the part of the LLVM C API that is needed
//! (rustc's own libLLVM is linked, so the bitcode version always matches).
#![allow(non_camel_case_types)]
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_longlong, c_uint, c_ulonglong, c_void};

pub type Ctx = *mut c_void;
pub type Mod = *mut c_void;
pub type V = *mut c_void;
pub type T = *mut c_void;
pub type BB = *mut c_void;
pub type TD = *mut c_void;
pub type Md = *mut c_void;

extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut *mut c_void, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, buf: *mut c_void, out: *mut Mod) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Mod) -> TD;
    pub fn LLVMABISizeOfType(td: TD, t: T) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: TD, t: T) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: TD, t: T) -> c_uint;
    pub fn LLVMOffsetOfElement(td: TD, t: T, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetFirstFunction(m: Mod) -> V;
    pub fn LLVMGetNextFunction(f: V) -> V;
    pub fn LLVMGetFirstGlobal(m: Mod) -> V;
    pub fn LLVMGetNextGlobal(f: V) -> V;
    pub fn LLVMGetInitializer(g: V) -> V;
    pub fn LLVMGlobalGetValueType(g: V) -> T;
    pub fn LLVMGetAlignment(v: V) -> c_uint;
    pub fn LLVMIsGlobalConstant(v: V) -> c_int;
    pub fn LLVMGetValueName2(v: V, n: *mut usize) -> *const c_char;
    pub fn LLVMCountParams(f: V) -> c_uint;
    pub fn LLVMGetParam(f: V, i: c_uint) -> V;
    pub fn LLVMGetFirstBasicBlock(f: V) -> BB;
    pub fn LLVMGetNextBasicBlock(b: BB) -> BB;
    pub fn LLVMBasicBlockAsValue(b: BB) -> V;
    pub fn LLVMGetFirstInstruction(b: BB) -> V;
    pub fn LLVMGetNextInstruction(i: V) -> V;
    pub fn LLVMGetInstructionOpcode(i: V) -> c_uint;
    pub fn LLVMGetNumOperands(v: V) -> c_int;
    pub fn LLVMGetOperand(v: V, i: c_uint) -> V;
    pub fn LLVMTypeOf(v: V) -> T;
    pub fn LLVMGetTypeKind(t: T) -> c_uint;
    pub fn LLVMGetIntTypeWidth(t: T) -> c_uint;
    pub fn LLVMGetElementType(t: T) -> T;
    pub fn LLVMGetVectorSize(t: T) -> c_uint;
    pub fn LLVMGetArrayLength2(t: T) -> u64;
    pub fn LLVMCountStructElementTypes(t: T) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: T, i: c_uint) -> T;
    pub fn LLVMGetICmpPredicate(v: V) -> c_uint;
    pub fn LLVMGetNumSuccessors(v: V) -> c_uint;
    pub fn LLVMGetSuccessor(v: V, i: c_uint) -> BB;
    pub fn LLVMGetSwitchDefaultDest(v: V) -> BB;
    pub fn LLVMCountIncoming(v: V) -> c_uint;
    pub fn LLVMGetIncomingValue(v: V, i: c_uint) -> V;
    pub fn LLVMGetIncomingBlock(v: V, i: c_uint) -> BB;
    pub fn LLVMGetNumIndices(v: V) -> c_uint;
    pub fn LLVMGetIndices(v: V) -> *const c_uint;
    pub fn LLVMGetCalledValue(v: V) -> V;
    pub fn LLVMGetNumArgOperands(v: V) -> c_uint;
    pub fn LLVMGetNormalDest(v: V) -> BB;
    pub fn LLVMGetAllocatedType(v: V) -> T;
    pub fn LLVMGetGEPSourceElementType(v: V) -> T;
    pub fn LLVMGetAtomicRMWBinOp(v: V) -> c_uint;
    pub fn LLVMGetNumMaskElements(v: V) -> c_uint;
    pub fn LLVMGetMaskValue(v: V, i: c_uint) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: V) -> c_ulonglong;
    pub fn LLVMConstIntGetSExtValue(v: V) -> c_longlong;
    pub fn LLVMGetConstOpcode(v: V) -> c_uint;
    pub fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    pub fn LLVMPrintValueToString(v: V) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMAliasGetAliasee(v: V) -> V;
    pub fn LLVMIsAConstantInt(v: V) -> V;
    pub fn LLVMIsAConstantFP(v: V) -> V;
    pub fn LLVMIsAFunction(v: V) -> V;
    pub fn LLVMIsAGlobalVariable(v: V) -> V;
    pub fn LLVMIsAGlobalAlias(v: V) -> V;
    pub fn LLVMIsAConstantExpr(v: V) -> V;
    pub fn LLVMIsAUndefValue(v: V) -> V;
    pub fn LLVMIsAConstantAggregateZero(v: V) -> V;
    pub fn LLVMIsAConstantPointerNull(v: V) -> V;
    pub fn LLVMIsAInlineAsm(v: V) -> V;
    pub fn LLVMIsConstant(v: V) -> c_int;
    pub fn LLVMIsDeclaration(v: V) -> c_int;
    pub fn LLVMInstructionGetDebugLoc(v: V) -> Md;
    pub fn LLVMDILocationGetLine(m: Md) -> c_uint;
    pub fn LLVMDILocationGetScope(m: Md) -> Md;
    pub fn LLVMDILocationGetInlinedAt(m: Md) -> Md;
    pub fn LLVMDIScopeGetFile(m: Md) -> Md;
    pub fn LLVMDIFileGetFilename(m: Md, n: *mut c_uint) -> *const c_char;
    pub fn LLVMDIFileGetDirectory(m: Md, n: *mut c_uint) -> *const c_char;
}

pub fn name(v: V) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string()
    }
}

pub fn print(v: V) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        LLVMDisposeMessage(p);
        s
    }
}

pub fn load(path: &str) -> Mod {
    unsafe {
        let c = LLVMContextCreate();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        let p = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            eprintln!("cannot read {}", path);
            std::process::exit(9);
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(c, buf, &mut m) != 0 {
            eprintln!("cannot parse {}", path);
            std::process::exit(9);
        }
        m
    }
}
