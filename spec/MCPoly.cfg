SPECIFICATION Spec
CONSTANTS B = 1
 MonSel = 1
INVARIANTS IsCanonical Additive Multiplicative Powers Modular Division Derivatives Homomorphisms Reduction QSer Order LeadOk
CHECK_DEADLOCK FALSE
