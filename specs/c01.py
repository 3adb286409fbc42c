from irv.runner import Group, Battery
from specs.vec import VecResize, VecPushBack
from specs.codec import *
LEVEL = "proof"
NOTE = "every function of the codec and the vector operations it uses is under contract for all lists and byte strings; vectors without storage are covered by the bounded executable contracts"
ASSUMPTIONS = ["lists are shorter than 2^34 elements and code vectors shorter than 2^36 bytes (memory is finite)",
               "a vector without storage is treated in the codec proofs as one with a zero-length buffer (Vector::resize itself is verified for both)",
               "exception clean-up paths are not verified"]
def groups():
    return [Group("codec.cc", [f(t) for t in "ctjm" for f in (VecResize, VecPushBack)] + [Encode(), Decode()] + [f(t) for t in "tjm" for f in (Comp, Decomp, DecompAny, RoundTrip)])]
def batteries():
    return [Battery("codec.cc", bounded=["vectors that have no storage yet (default-constructed)"], quick=8)]
