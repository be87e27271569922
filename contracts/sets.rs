// What the lists of a configuration are grouped by.
pub open spec fn type_of(c: Connection) -> ComponentType { match c { Connection::MiddleConnection { component_type, .. } => component_type, Connection::StartConnection { component_type, .. } => component_type, Connection::EndConnection { component_type, .. } => component_type } }
pub open spec fn with_set(c: Connection, s: Option<String>) -> Connection {
    match c {
        Connection::MiddleConnection { component_type, component_name, input_port, output_port, .. } => Connection::MiddleConnection { component_type, component_name, input_port, output_port, connection_set: s },
        Connection::StartConnection { component_type, component_name, output_port, .. } => Connection::StartConnection { component_type, component_name, output_port, connection_set: s },
        Connection::EndConnection { component_type, component_name, input_port, .. } => Connection::EndConnection { component_type, component_name, input_port, connection_set: s },
    }
}
pub open spec fn same_but_set(a: Connection, b: Connection) -> bool { exists|s: Option<String>| b == #[trigger] with_set(a, s) }
/// the same list, but for what its elements are grouped by
pub open spec fn regrouped(a: DeserializedConnection, b: DeserializedConnection) -> bool {
    match a {
        DeserializedConnection::Connections(v) => b is Connections && b->Connections_0@.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> same_but_set(v@[k], #[trigger] b->Connections_0@[k]),
        _ => b == a,
    }
}
impl Connection {
//@item src/config.rs :: impl Connection > fn component_type [bare]

    fn component_type(&self) -> /*@ (r: @*/ &ComponentType /*@ ) ensures *r == type_of(*self) @*/ {
        match self {
            Connection::MiddleConnection { component_type, .. } => {
                component_type
            },
            Connection::StartConnection { component_type, .. } => {
                component_type
            },
            Connection::EndConnection { component_type, ..} => {
                component_type
            },
        }
    }
//@end
}
//@item src/config.rs :: fn quick_add_connection_set > fn set_connection_set

    fn set_connection_set(connection: Connection, s: Option<String>) -> /*@ (r: @*/ Connection /*@ ) ensures r == with_set(connection, s) @*/ {
        match connection {
            Connection::MiddleConnection { component_type, component_name, input_port, output_port, .. } => {
                Connection::MiddleConnection {
                    component_type,
                    component_name,
                    input_port,
                    output_port,
                    connection_set: s,
                }
            },
            Connection::StartConnection { component_type, component_name, output_port, .. } => {
                Connection::StartConnection {
                    component_type,
                    component_name,
                    output_port,
                    connection_set: s,
                }
            },
            Connection::EndConnection { component_type, component_name, input_port, ..} => {
                Connection::EndConnection {
                    component_type,
                    component_name,
                    input_port,
                    connection_set: s,
                }
            },
        }
    }
//@end
//@item src/config.rs :: fn quick_add_connection_set [seq,nofn,idx]

pub fn quick_add_connection_set(connection_set: &str, ds: &mut DeserializedConnection)
    /*@ ensures regrouped(*old(ds), *final(ds)) @*/ {
    fn set_connection_set(connection: Connection, s: Option<String>) -> Connection {
        match connection {
            Connection::MiddleConnection { component_type, component_name, input_port, output_port, .. } => {
                Connection::MiddleConnection {
                    component_type,
                    component_name,
                    input_port,
                    output_port,
                    connection_set: s,
                }
            },
            Connection::StartConnection { component_type, component_name, output_port, .. } => {
                Connection::StartConnection {
                    component_type,
                    component_name,
                    output_port,
                    connection_set: s,
                }
            },
            Connection::EndConnection { component_type, component_name, input_port, ..} => {
                Connection::EndConnection {
                    component_type,
                    component_name,
                    input_port,
                    connection_set: s,
                }
            },
        }
    }
    match ds {
        DeserializedConnection::Connections(cs) => {
            /*@ let ghost c0 = cs@; @*/
            let len = cs.len();
            for (i, c) in cs.iter_mut().enumerate()
                /*@ invariant 0 <= n__i <= c0.len(), len == c0.len(), cs@.len() == c0.len(), forall|k: int| n__i <= k < c0.len() ==> cs@[k] == c0[k], forall|k: int| 0 <= k < n__i ==> same_but_set(c0[k], #[trigger] cs@[k]) @*/ {
                let mut dst = Connection::StartConnection {
                    component_type: ComponentType::Buffer,
                    component_name: "".to_owned(),
                    output_port: OutputPort::Exit,
                    connection_set: Some("".to_owned()),
                };
                std::mem::swap(c, &mut dst);
                let mut conn_set = Some(connection_set.to_owned());
                if ((i == 0) || (i == len - 1)) && dst.component_type() == &ComponentType::Junction {
                    conn_set = None
                }
                *c = set_connection_set(dst, conn_set);
            }
        },
        DeserializedConnection::JoinString(_) => {},
    }
}
//@end
