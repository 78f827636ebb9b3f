T.update({p: ("proof", PROOF) for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C30", "C31")})
T.update({p: ("proof", MIX) for p in ("C05", "C06", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28")})
NA.update({
 "C29": "needs the OpenCL kernels and a device: neither an OpenCL implementation nor a verifier for OpenCL C is installed, and the reference build does not compile this code (BUILD_OPENCL off)",
})
