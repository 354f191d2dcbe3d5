//! The public names of opg that the harnesses use, one by one: a name that opg gains must not
//! make one of theirs ambiguous.
pub use opg::{OPENAPI_VERSION, SCHEMA_REFERENCE_PREFIX, FromStrangeTuple, Opg, OpenApiVersion, Info, Tag, Server, Path, PathElement, PathValue, HttpMethod, Operation, RequestBody, Response, CallbackObject, OperationParameter, ParameterIn, Components, OpgModel, ContextParams, Model, ModelMergeError, ModelData, ModelOneOf, ModelAllOf, ModelAnyOf, ModelType, ModelTypeDescription, ModelString, ModelSimple, ModelArray, ModelObject, ModelReference, SecurityScheme, HttpSecurityScheme, HttpSecuritySchemeKind, ApiKeySecurityScheme, ParameterNotSpecified, describe_type, describe_api, impl_opg_model, http};
