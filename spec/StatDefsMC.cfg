SPECIFICATION Spec
CONSTANTS G = 6
 MinN = 4
 MaxN = 6
INVARIANTS LMoments GiniDef RossbergDef SteinDef WeightsDef CoinDef EppsDef MirrorLaw
CHECK_DEADLOCK FALSE
