"""Thin ctypes binding to the LLVM 18 C API (only what pvc needs)."""
import ctypes as C, os, glob
_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"] + glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*")
L = None
for c in _cands:
    if os.path.exists(c):
        L = C.CDLL(c); break
P = C.c_void_p; U = C.c_uint; S = C.c_char_p; I = C.c_int; SZ = C.c_size_t
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
ContextCreate=_f("LLVMContextCreate",P)
CreateMemBuf=_f("LLVMCreateMemoryBufferWithContentsOfFile",I,S,C.POINTER(P),C.POINTER(S))
ParseIR=_f("LLVMParseIRInContext",I,P,P,C.POINTER(P),C.POINTER(S))
PrintModuleToFile=_f("LLVMPrintModuleToFile",I,P,S,C.POINTER(S))
GetVolatile=_f("LLVMGetVolatile",C.c_int,P)
GetFirstFunction=_f("LLVMGetFirstFunction",P,P)
GetNextFunction=_f("LLVMGetNextFunction",P,P)
GetFirstGlobal=_f("LLVMGetFirstGlobal",P,P)
GetNextGlobal=_f("LLVMGetNextGlobal",P,P)
GetInitializer=_f("LLVMGetInitializer",P,P)
IsGlobalConstant=_f("LLVMIsGlobalConstant",I,P)
GlobalGetValueType=_f("LLVMGlobalGetValueType",P,P)
GetValueName2=_f("LLVMGetValueName2",S,P,C.POINTER(SZ))
IsDeclaration=_f("LLVMIsDeclaration",I,P)
GetFirstBB=_f("LLVMGetFirstBasicBlock",P,P)
GetNextBB=_f("LLVMGetNextBasicBlock",P,P)
GetFirstInst=_f("LLVMGetFirstInstruction",P,P)
GetNextInst=_f("LLVMGetNextInstruction",P,P)
GetInstOpcode=_f("LLVMGetInstructionOpcode",I,P)
GetNumOperands=_f("LLVMGetNumOperands",I,P)
GetOperand=_f("LLVMGetOperand",P,P,U)
TypeOf=_f("LLVMTypeOf",P,P)
GetTypeKind=_f("LLVMGetTypeKind",I,P)
GetIntTypeWidth=_f("LLVMGetIntTypeWidth",U,P)
GetElementType=_f("LLVMGetElementType",P,P)
GetVectorSize=_f("LLVMGetVectorSize",U,P)
GetArrayLength2=_f("LLVMGetArrayLength2",C.c_uint64,P)
CountStructElementTypes=_f("LLVMCountStructElementTypes",U,P)
StructGetTypeAtIndex=_f("LLVMStructGetTypeAtIndex",P,P,U)
GetStructName=_f("LLVMGetStructName",S,P)
GetValueKind=_f("LLVMGetValueKind",I,P)
ConstIntZ=_f("LLVMConstIntGetZExtValue",C.c_uint64,P)
ConstIntS=_f("LLVMConstIntGetSExtValue",C.c_int64,P)
ConstRealGetDouble=_f("LLVMConstRealGetDouble",C.c_double,P,C.POINTER(I))
PrintValueToString=_f("LLVMPrintValueToString",C.c_void_p,P)
DisposeMessage=_f("LLVMDisposeMessage",None,C.c_void_p)
GetICmpPredicate=_f("LLVMGetICmpPredicate",I,P)
GetFCmpPredicate=_f("LLVMGetFCmpPredicate",I,P)
CountIncoming=_f("LLVMCountIncoming",U,P)
GetIncomingValue=_f("LLVMGetIncomingValue",P,P,U)
GetIncomingBlock=_f("LLVMGetIncomingBlock",P,P,U)
GetNumSuccessors=_f("LLVMGetNumSuccessors",U,P)
GetSuccessor=_f("LLVMGetSuccessor",P,P,U)
GetTerminator=_f("LLVMGetBasicBlockTerminator",P,P)
BBAsValue=_f("LLVMBasicBlockAsValue",P,P)
ValueAsBB=_f("LLVMValueAsBasicBlock",P,P)
GetCalledValue=_f("LLVMGetCalledValue",P,P)
GetCalledFunctionType=_f("LLVMGetCalledFunctionType",P,P)
GetNumArgOperands=_f("LLVMGetNumArgOperands",U,P)
GetNormalDest=_f("LLVMGetNormalDest",P,P)
GetUnwindDest=_f("LLVMGetUnwindDest",P,P)
CountParams=_f("LLVMCountParams",U,P)
GetParam=_f("LLVMGetParam",P,P,U)
GetGEPSourceElementType=_f("LLVMGetGEPSourceElementType",P,P)
GetAllocatedType=_f("LLVMGetAllocatedType",P,P)
GetNumIndices=_f("LLVMGetNumIndices",U,P)
GetIndices=_f("LLVMGetIndices",C.POINTER(U),P)
GetNumMaskElements=_f("LLVMGetNumMaskElements",U,P)
GetMaskValue=_f("LLVMGetMaskValue",I,P,U)
GetModuleDataLayout=_f("LLVMGetModuleDataLayout",P,P)
ABISizeOfType=_f("LLVMABISizeOfType",C.c_ulonglong,P,P)
OffsetOfElement=_f("LLVMOffsetOfElement",C.c_ulonglong,P,P,U)
GetConstOpcode=_f("LLVMGetConstOpcode",I,P)
IsUndef=_f("LLVMIsUndef",I,P)
IsPoison=_f("LLVMIsPoison",I,P)
IsNull=_f("LLVMIsNull",I,P)
GetAggregateElement=_f("LLVMGetAggregateElement",P,P,U)
IsConstantString=_f("LLVMIsConstantString",I,P)
GetAsString=_f("LLVMGetAsString",C.c_void_p,P,C.POINTER(SZ))
IsConditional=_f("LLVMIsConditional",I,P)
GetCondition=_f("LLVMGetCondition",P,P)
GetSwitchDefaultDest=_f("LLVMGetSwitchDefaultDest",P,P)
GetReturnType=_f("LLVMGetReturnType",P,P)
GetEnumKind=_f("LLVMGetEnumAttributeKindForName",U,S,SZ)
CreateEnumAttr=_f("LLVMCreateEnumAttribute",P,P,U,C.c_uint64)
AddAttr=_f("LLVMAddAttributeAtIndex",None,P,I,P)
RemoveEnumAttr=_f("LLVMRemoveEnumAttributeAtIndex",None,P,I,U)
GetNSW=_f("LLVMGetNSW",I,P)
GetNUW=_f("LLVMGetNUW",I,P)
GetFirstUse=_f("LLVMGetFirstUse",P,P)
RunPasses=_f("LLVMRunPasses",P,P,S,P,P)
CreatePBO=_f("LLVMCreatePassBuilderOptions",P)
GetErrorMessage=_f("LLVMGetErrorMessage",C.c_void_p,P)
SetLinkage=_f("LLVMSetLinkage",None,P,I)
GetLinkage=_f("LLVMGetLinkage",I,P)
DisposeModule=_f("LLVMDisposeModule",None,P)
GetTargetMachine=None
for n in ("LLVMInitializeX86TargetInfo","LLVMInitializeX86Target","LLVMInitializeX86TargetMC"):
    try: getattr(L,n)()
    except AttributeError: pass
GetTargetFromTriple=_f("LLVMGetTargetFromTriple",I,S,C.POINTER(P),C.POINTER(S))
CreateTM=_f("LLVMCreateTargetMachine",P,P,S,S,S,I,I,I)

OPC={1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"getelementptr",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",47:"userop1",48:"userop2",49:"vaarg",50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad",60:"addrspacecast",66:"fneg",68:"freeze"}
ICMP={32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
TK={0:"void",1:"half",2:"float",3:"double",4:"x86fp80",7:"label",8:"int",9:"func",10:"struct",11:"array",12:"ptr",13:"vector",14:"metadata",16:"token"}
VK={0:"arg",1:"bb",5:"func",6:"alias",7:"ifunc",8:"gvar",9:"blockaddr",10:"constexpr",11:"carray",12:"cstruct",13:"cvector",14:"undef",15:"zeroinit",16:"cdataarray",17:"cdatavector",18:"cint",19:"cfp",20:"cnull",21:"ctoken",22:"metadata",23:"inlineasm",24:"inst",25:"poison"}
def name(v):
    n=SZ(); s=GetValueName2(v,C.byref(n)); return s.decode() if s else ""
def vstr(v):
    p=PrintValueToString(v); s=C.string_at(p).decode(errors="replace"); DisposeMessage(p); return s
