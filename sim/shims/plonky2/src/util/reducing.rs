pub struct ReducingFactorTarget;
