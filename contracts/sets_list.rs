pub open spec fn list_of(d: DeserializedConnection) -> Seq<Connection> { match d { DeserializedConnection::Connections(v) => v@, _ => Seq::empty() } }
impl Config {
//@item src/config.rs :: impl Config > fn quick_deserialized_connection_to_connection [bare]
    pub fn quick_deserialized_connection_to_connection(ds: &DeserializedConnection) -> /*@ (r: @*/ Vec<&Connection> /*@ )
        ensures r@.len() == list_of(*ds).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == list_of(*ds)[i] @*/ {
        match ds {
            DeserializedConnection::Connections(cs) => {
                let mut v /*@: Vec<&Connection>@*/ = vec![];
                for c in /*@ it: @*/ cs /*@ invariant v@.len() == it.index(), it.seq() == cs@.map_values(|x: Connection| &x), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == cs@[i] @*/ {
                    v.push(c);
                }
                v
            },
            DeserializedConnection::JoinString(_) => vec![],
        }
    }
//@end
}
