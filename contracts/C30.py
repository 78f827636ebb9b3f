"""C30: parallel loops do not depend on the number of threads."""
from lib import *
from par import *
import glob, os
import C07, C08, C09, C10, C11, C12, C13, C14, C18, C24
SOURCES = []
for m in (C07, C08, C09, C10, C11, C12, C13, C14, C18, C24): SOURCES += [s for s in m.SOURCES if s not in SOURCES]
PH = {"Conv::Tensor::CopyMap": par_copymap, "Conv::Tensor::CopySample": par_copysample}

def bases():
    return [C07.Gemm(), C07.Gemv(), C08.Im2Col(), C09.Add(), C10.MaxFF(), C10.AdvFF(), C10.MaxBP(), C10.AdvBP(), C11.RFF(), C11.RBP(), C11.SFF(), C11.SBP(),
            C12.CFF(), C12.CBP(), C12.GBP(), C13.SigFF(), C13.TanhFF(), C13.ReluFF(), C13.SoftFF(), C13.SigBP(), C13.TanhBP(), C13.ReluBP(), C13.SoftBP(),
            C14.LFF(), C14.LFFa(), C14.LBP(), C14.LBPa(), C18.FF(), C24.Get(True), C24.Get(False)]

def FNS(): return [Par(b, PH, keep_hints=isinstance(b, (C08.Im2Col, C10.MaxBP))) for b in bases()]
def LEMMAS(): return par_lemmas()
def UNREACHED(): return uncovered()
