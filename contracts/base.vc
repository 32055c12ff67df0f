@keeptrait OsVersion::Ord
@keeptrait OsVersion::PartialOrd
@keeptrait OsVersion::PartialEq
@keeptrait OsVersion::Eq
@keeptrait Model::PartialEq
@keeptrait Model::Eq
@keeptrait Model::Serialize
@keeptrait Model::Deserialize
@implspec Model::Deserialize open spec fn read_ok<D: Deserializer<'de>>(d: D, r: Model) -> bool { d.held() is Some && r == model_from(d.held().unwrap()) }
