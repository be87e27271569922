//@item src/config.rs :: enum ComponentType
pub enum ComponentType {
    Faucet,
    Launch,
    Junction,
    Buffer,
    Drain,
    Regulator,
}
//@end
impl Clone for ComponentType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ComponentType {}
impl PartialEq for ComponentType { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ComponentType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl View for ComponentType { type V = ComponentType; open spec fn view(&self) -> ComponentType { *self } }
//@item src/config.rs :: struct LaunchConfig
pub struct LaunchConfig {
    pub command: Option<String>,
    pub path: Option<String>,
    pub env: HashMap<String, String>,
    pub arg: Vec<String>,
}
//@end
//@item src/config.rs :: struct FaucetConfig
pub struct FaucetConfig {
    pub source: String,
}
//@end
//@item src/config.rs :: struct RegulatorConfig
pub struct RegulatorConfig {
    pub buffered: Option<(usize, usize)>,
    pub monitored_buffers: Vec<String>,
}
//@end
//@item src/config.rs :: struct DrainConfig
pub struct DrainConfig {
    pub destination: String,
}
//@end
//@item src/config.rs :: enum Connection
pub enum Connection {
    MiddleConnection {
        component_type: ComponentType,
        component_name: String,
        input_port: InputPort,
        output_port: OutputPort,
        connection_set: Option<String>,
    },
    StartConnection{
        component_type: ComponentType,
        component_name: String,
        output_port: OutputPort,
        connection_set: Option<String>,
    },
    EndConnection {
        component_type: ComponentType,
        component_name: String,
        input_port: InputPort,
        connection_set: Option<String>,
    }
}
//@end
impl Clone for Connection { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item src/config.rs :: enum DeserializedConnection
pub enum DeserializedConnection {
    JoinString(String),
    Connections(Vec<Connection>),
}
//@end
//@item src/config.rs :: struct Config
pub struct Config {
    pub faucet: HashMap<String, FaucetConfig>,
    pub regulator: HashMap<String, RegulatorConfig>,
    pub drain: HashMap<String, DrainConfig>,
    pub launch: HashMap<String, LaunchConfig>,
    pub connection: BTreeMap<String, DeserializedConnection>,
}
//@end
