//@item src/config.rs :: peg connection_parser > fn __parse_component_name [seq]
fn __parse_component_name<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<String> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_name(rest(__input@, __pos)) == Some((rest(__input@, n), v@)), crate::peg::RuleResult::Failed => g_name(rest(__input@, __pos)) is None } @*/ { /*@ let ghost s0 = rest(__input@, __pos); proof { lemma_run(s0, word()); assert(s0.skip(0) =~= s0); } @*/
        {
          let __seq_res =
            {
              let str_start = __pos;
              match {
                  let mut __repeat_pos = __pos;
                  let mut __repeat_value =Vec::new(); /*! #[verifier::allow_complex_invariants] !*/
                  loop /*@ invariant ok(__input@, __pos), ok(__input@, __repeat_pos), __pos <= __repeat_pos, ran(rest(__input@, __pos), rest(__input@, __repeat_pos), word()), __repeat_value@.len() == rest(__input@, __pos).len() - rest(__input@, __repeat_pos).len() ensures run(rest(__input@, __repeat_pos), word()) == 0 @*/ { /*@ proof { lemma_words(); if rest(__input@, __repeat_pos).len() > 0 { lemma_lit(rest(__input@, __repeat_pos), " "@); if (word())(rest(__input@, __repeat_pos)[0]) { lemma_step(rest(__input@, __pos), rest(__input@, __repeat_pos), word()); } } } @*/
                    let __pos = __repeat_pos;
                    let __step_res =
                      match crate::peg::ParseElem::parse_elem(__input, __pos) { crate::peg::RuleResult::Matched(__next, __ch) =>
                          match __ch {
                            'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => crate::peg::RuleResult::Matched(__next, ()),
                            _ => {
                              __err_state.mark_failure(__pos,
                                "['a'..='z' | 'A'..='Z' | '0'..='9' | '_']"); crate::peg::RuleResult::Failed
                            }
                          }, crate::peg::RuleResult::Failed => {
                          __err_state.mark_failure(__pos,
                            "['a'..='z' | 'A'..='Z' | '0'..='9' | '_']"); crate::peg::RuleResult::Failed
                        }
                      };
                    match __step_res { crate::peg::RuleResult::Matched(__newpos, __value) => {
                        __repeat_pos = __newpos;
                        __repeat_value.push(__value);
                      } crate::peg::RuleResult::Failed => { break; }
                    }
                  }
                  if __repeat_value.len() >= 1 { crate::peg::RuleResult::Matched(__repeat_pos, ())
                  } else { crate::peg::RuleResult::Failed }
                } { crate::peg::RuleResult::Matched(__newpos, _) => { crate::peg::RuleResult::Matched(__newpos, crate::peg::ParseSlice::parse_slice(__input, str_start,
                      __newpos))
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, s) => { crate::peg::RuleResult::Matched(__pos, { s.to_string() })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_port_preference [seq]
fn __parse_port_preference<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<isize> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_pref(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_pref(rest(__input@, __pos)) is None } @*/ { /*@ proof { lemma_words(); } let ghost s0 = rest(__input@, __pos); proof { lemma_lit(s0, "-"@); lemma_run(signed(s0), digit()); assert(signed(s0).skip(0) =~= signed(s0)); } @*/
        {
          let __seq_res =
            {
              let str_start = __pos;
              match {
                  let __seq_res =
                    match match crate::peg::ParseLiteral::parse_string_literal(__input,
                          __pos, "-") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                        } crate::peg::RuleResult::Failed => {
                          __err_state.mark_failure(__pos, "\"-\""); crate::peg::RuleResult::Failed
                        }
                      } { crate::peg::RuleResult::Matched(__newpos, _) => { crate::peg::RuleResult::Matched(__newpos, ())
                      } crate::peg::RuleResult::Failed => { crate::peg::RuleResult::Matched(__pos, ())
                      }
                    };
                  match __seq_res { crate::peg::RuleResult::Matched(__pos, _) => {
                      {
                        let __seq_res =
                          {
                            let mut __repeat_pos = __pos; /*! #[verifier::allow_complex_invariants] !*/
                            loop /*@ invariant ok(__input@, __pos), ok(__input@, __repeat_pos), __pos <= __repeat_pos, ran(rest(__input@, __pos), rest(__input@, __repeat_pos), digit()) ensures run(rest(__input@, __repeat_pos), digit()) == 0 @*/ { /*@ proof { lemma_words(); if rest(__input@, __repeat_pos).len() > 0 { lemma_lit(rest(__input@, __repeat_pos), " "@); if (digit())(rest(__input@, __repeat_pos)[0]) { lemma_step(rest(__input@, __pos), rest(__input@, __repeat_pos), digit()); } } } @*/
                              let __pos = __repeat_pos;
                              let __step_res =
                                match crate::peg::ParseElem::parse_elem(__input, __pos) { crate::peg::RuleResult::Matched(__next, __ch) =>
                                    match __ch {
                                      '0'..='9' => crate::peg::RuleResult::Matched(__next, ()),
                                      _ => {
                                        __err_state.mark_failure(__pos, "['0'..='9']"); crate::peg::RuleResult::Failed
                                      }
                                    }, crate::peg::RuleResult::Failed => {
                                    __err_state.mark_failure(__pos, "['0'..='9']"); crate::peg::RuleResult::Failed
                                  }
                                };
                              match __step_res { crate::peg::RuleResult::Matched(__newpos, __value) => {
                                  __repeat_pos = __newpos;
                                } crate::peg::RuleResult::Failed => { break; }
                              }
                            } crate::peg::RuleResult::Matched(__repeat_pos, ())
                          };
                        match __seq_res { crate::peg::RuleResult::Matched(__pos, _) => { crate::peg::RuleResult::Matched(__pos, ())
                          } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                        }
                      }
                    } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                  }
                } { crate::peg::RuleResult::Matched(__newpos, _) => { crate::peg::RuleResult::Matched(__newpos, crate::peg::ParseSlice::parse_slice(__input, str_start,
                      __newpos))
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, n) => { crate::peg::RuleResult::Matched(__pos, { n. parse_text().unwrap_or(0) })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_in_port [seq]
fn __parse_in_port<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<InputPort> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_in(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_in(rest(__input@, __pos)) is None } @*/ {
        match crate::peg::ParseLiteral::parse_string_literal(__input,
            __pos, "[") { crate::peg::RuleResult::Matched(__pos, __val) => {
            {
              let __seq_res =
                __parse_port_preference(__input, __state, __err_state,
                  __pos);
              match __seq_res { crate::peg::RuleResult::Matched(__pos, p) => {
                  match crate::peg::ParseLiteral::parse_string_literal(__input,
                      __pos, "]") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos,
                              {
                                InputPort { breakable: Breakable::Terminate, priority: p }
                              })
                    } crate::peg::RuleResult::Failed => {
                      __err_state.mark_failure(__pos, "\"]\""); crate::peg::RuleResult::Failed
                    }
                  }
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            }
          } crate::peg::RuleResult::Failed => {
            __err_state.mark_failure(__pos, "\"[\""); crate::peg::RuleResult::Failed
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_type [seq]
fn __parse_component_type<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ComponentType> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_type(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_type(rest(__input@, __pos)) is None } @*/ { /*@ proof { lemma_words(); } @*/
        {
          let __seq_res =
            {
              let str_start = __pos;
              match {
                  let __choice_res =
                    match crate::peg::ParseLiteral::parse_string_literal(__input,
                        __pos, "faucet") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                      } crate::peg::RuleResult::Failed => {
                        __err_state.mark_failure(__pos, "\"faucet\""); crate::peg::RuleResult::Failed
                      }
                    };
                  match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                      let __choice_res =
                        match crate::peg::ParseLiteral::parse_string_literal(__input,
                            __pos, "drain") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                          } crate::peg::RuleResult::Failed => {
                            __err_state.mark_failure(__pos, "\"drain\""); crate::peg::RuleResult::Failed
                          }
                        };
                      match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                          let __choice_res =
                            match crate::peg::ParseLiteral::parse_string_literal(__input,
                                __pos, "regulator") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                              } crate::peg::RuleResult::Failed => {
                                __err_state.mark_failure(__pos, "\"regulator\""); crate::peg::RuleResult::Failed
                              }
                            };
                          match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                              let __choice_res =
                                match crate::peg::ParseLiteral::parse_string_literal(__input,
                                    __pos, "junction") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                  } crate::peg::RuleResult::Failed => {
                                    __err_state.mark_failure(__pos, "\"junction\""); crate::peg::RuleResult::Failed
                                  }
                                };
                              match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                                  let __choice_res =
                                    match crate::peg::ParseLiteral::parse_string_literal(__input,
                                        __pos, "buffer") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                      } crate::peg::RuleResult::Failed => {
                                        __err_state.mark_failure(__pos, "\"buffer\""); crate::peg::RuleResult::Failed
                                      }
                                    };
                                  match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                                      let __choice_res =
                                        match crate::peg::ParseLiteral::parse_string_literal(__input,
                                            __pos, "launch") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                          } crate::peg::RuleResult::Failed => {
                                            __err_state.mark_failure(__pos, "\"launch\""); crate::peg::RuleResult::Failed
                                          }
                                        };
                                      match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                                          let __choice_res =
                                            match crate::peg::ParseLiteral::parse_string_literal(__input,
                                                __pos, "f") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                              } crate::peg::RuleResult::Failed => {
                                                __err_state.mark_failure(__pos, "\"f\""); crate::peg::RuleResult::Failed
                                              }
                                            };
                                          match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                                              let __choice_res =
                                                match crate::peg::ParseLiteral::parse_string_literal(__input,
                                                    __pos, "d") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                                  } crate::peg::RuleResult::Failed => {
                                                    __err_state.mark_failure(__pos, "\"d\""); crate::peg::RuleResult::Failed
                                                  }
                                                };
                                              match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                                                  let __choice_res =
                                                    match crate::peg::ParseLiteral::parse_string_literal(__input,
                                                        __pos, "r") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                                      } crate::peg::RuleResult::Failed => {
                                                        __err_state.mark_failure(__pos, "\"r\""); crate::peg::RuleResult::Failed
                                                      }
                                                    };
                                                  match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                                                      let __choice_res =
                                                        match crate::peg::ParseLiteral::parse_string_literal(__input,
                                                            __pos, "j") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                                          } crate::peg::RuleResult::Failed => {
                                                            __err_state.mark_failure(__pos, "\"j\""); crate::peg::RuleResult::Failed
                                                          }
                                                        };
                                                      match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                                                          let __choice_res =
                                                            match crate::peg::ParseLiteral::parse_string_literal(__input,
                                                                __pos, "b") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                                              } crate::peg::RuleResult::Failed => {
                                                                __err_state.mark_failure(__pos, "\"b\""); crate::peg::RuleResult::Failed
                                                              }
                                                            };
                                                          match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed =>
                                                              match crate::peg::ParseLiteral::parse_string_literal(__input,
                                                                  __pos, "l") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                                                } crate::peg::RuleResult::Failed => {
                                                                  __err_state.mark_failure(__pos, "\"l\""); crate::peg::RuleResult::Failed
                                                                }
                                                              },
                                                          }
                                                        }
                                                      }
                                                    }
                                                  }
                                                }
                                              }
                                            }
                                          }
                                        }
                                      }
                                    }
                                  }
                                }
                              }
                            }
                          }
                        }
                      }
                    }
                  }
                } { crate::peg::RuleResult::Matched(__newpos, _) => { crate::peg::RuleResult::Matched(__newpos, crate::peg::ParseSlice::parse_slice(__input, str_start,
                      __newpos))
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, t) => { crate::peg::RuleResult::Matched(__pos,
                      {
                        match t {
                          "f" => ComponentType::Faucet,
                          "d" => ComponentType::Drain,
                          "r" => ComponentType::Regulator,
                          "j" => ComponentType::Junction,
                          "b" => ComponentType::Buffer,
                          "l" => ComponentType::Launch,
                          "faucet" => ComponentType::Faucet,
                          "drain" => ComponentType::Drain,
                          "regulator" => ComponentType::Regulator,
                          "junction" => ComponentType::Junction,
                          "buffer" => ComponentType::Buffer,
                          "launch" => ComponentType::Launch,
                          _ => { crate::peg::never();
                          }
                        }
                      })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_identifier [seq]
fn __parse_identifier<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ComponentIdentifier> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_identifier(rest(__input@, __pos)) == Some((rest(__input@, n), (v.0, v.1@))), crate::peg::RuleResult::Failed => g_identifier(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_component_type(__input, __state, __err_state,
              __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, t) => {
              {
                let __seq_res =
                  match __parse_component_type_name_seperator(__input,
                      __state, __err_state, __pos) { crate::peg::RuleResult::Matched(pos, _) => crate::peg::RuleResult::Matched(pos, ()), crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                  };
                match __seq_res { crate::peg::RuleResult::Matched(__pos, _) => {
                    {
                      let __seq_res =
                        __parse_component_name(__input, __state, __err_state,
                          __pos);
                      match __seq_res { crate::peg::RuleResult::Matched(__pos, n) => { crate::peg::RuleResult::Matched(__pos, { ComponentIdentifier(t, n) })
                        } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                      }
                    }
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_type_name_seperator [seq]
fn __parse_component_type_name_seperator<'input>(__input:
          &'input Input<>, __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<bool> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_sep(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_sep(rest(__input@, __pos)) is None } @*/ {
        match crate::peg::ParseLiteral::parse_string_literal(__input,
            __pos, ":") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, { true })
          } crate::peg::RuleResult::Failed => {
            __err_state.mark_failure(__pos, "\":\""); crate::peg::RuleResult::Failed
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_out_port [seq]
fn __parse_out_port<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<OutputPort> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_out(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_out(rest(__input@, __pos)) is None } @*/ { /*@ proof { lemma_words(); } proof { let s0 = rest(__input@, __pos); if lit(s0, "["@) is Some { let a = lit(s0, "["@)->0; if a.len() > 0 { assert(a.skip(1).len() == a.len() - 1); assert(a.take(1) =~= seq![a[0]]); assert(a.take(1)[0] == a[0]); assert("X"@[0] == 'X' && "E"@[0] == 'E' && "O"@[0] == 'O'); } } } @*/
        match crate::peg::ParseLiteral::parse_string_literal(__input,
            __pos, "[") { crate::peg::RuleResult::Matched(__pos, __val) => {
            {
              let __seq_res =
                {
                  let str_start = __pos;
                  match match crate::peg::ParseElem::parse_elem(__input, __pos) { crate::peg::RuleResult::Matched(__next, __ch) =>
                        match __ch {
                          'E' | 'O' | 'X' => crate::peg::RuleResult::Matched(__next, ()),
                          _ => {
                            __err_state.mark_failure(__pos, "['E'|'O'|'X']"); crate::peg::RuleResult::Failed
                          }
                        }, crate::peg::RuleResult::Failed => {
                        __err_state.mark_failure(__pos, "['E'|'O'|'X']"); crate::peg::RuleResult::Failed
                      }
                    } { crate::peg::RuleResult::Matched(__newpos, _) => { crate::peg::RuleResult::Matched(__newpos, crate::peg::ParseSlice::parse_slice(__input, str_start,
                          __newpos))
                    } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                  }
                };
              match __seq_res { crate::peg::RuleResult::Matched(__pos, p) => {
                  match crate::peg::ParseLiteral::parse_string_literal(__input,
                      __pos, "]") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos,
                              {
                                match p {
                                  "X" => OutputPort::Exit,
                                  "E" => OutputPort::Err,
                                  "O" => OutputPort::Out,
                                  _ => OutputPort::Out,
                                }
                              })
                    } crate::peg::RuleResult::Failed => {
                      __err_state.mark_failure(__pos, "\"]\""); crate::peg::RuleResult::Failed
                    }
                  }
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            }
          } crate::peg::RuleResult::Failed => {
            __err_state.mark_failure(__pos, "\"[\""); crate::peg::RuleResult::Failed
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_pipe_type_code [seq]
fn __parse_pipe_type_code<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<Breakable> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_code(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_code(rest(__input@, __pos)) is None } @*/ { /*@ proof { lemma_words(); } @*/
        {
          let __seq_res =
            {
              let str_start = __pos;
              match {
                  let __choice_res =
                    match crate::peg::ParseLiteral::parse_string_literal(__input,
                        __pos, "T") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                      } crate::peg::RuleResult::Failed => {
                        __err_state.mark_failure(__pos, "\"T\""); crate::peg::RuleResult::Failed
                      }
                    };
                  match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                      let __choice_res =
                        match crate::peg::ParseLiteral::parse_string_literal(__input,
                            __pos, "C") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                          } crate::peg::RuleResult::Failed => {
                            __err_state.mark_failure(__pos, "\"C\""); crate::peg::RuleResult::Failed
                          }
                        };
                      match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed =>
                          match crate::peg::ParseLiteral::parse_string_literal(__input,
                              __pos, "F") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                            } crate::peg::RuleResult::Failed => {
                              __err_state.mark_failure(__pos, "\"F\""); crate::peg::RuleResult::Failed
                            }
                          },
                      }
                    }
                  }
                } { crate::peg::RuleResult::Matched(__newpos, _) => { crate::peg::RuleResult::Matched(__newpos, crate::peg::ParseSlice::parse_slice(__input, str_start,
                      __newpos))
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, p) => { crate::peg::RuleResult::Matched(__pos,
                      {
                        match p {
                          "T" => Breakable::Terminate,
                          "C" => Breakable::Consume,
                          "F" => Breakable::Finish,
                          _ => Breakable::Terminate,
                        }
                      })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_pipe_type [seq]
fn __parse_pipe_type<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<Breakable> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_typed(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_typed(rest(__input@, __pos)) is None } @*/ {
        match crate::peg::ParseLiteral::parse_string_literal(__input,
            __pos, "|") { crate::peg::RuleResult::Matched(__pos, __val) => {
            {
              let __seq_res =
                __parse_pipe_type_code(__input, __state, __err_state,
                  __pos);
              match __seq_res { crate::peg::RuleResult::Matched(__pos, p) => {
                  match crate::peg::ParseLiteral::parse_string_literal(__input,
                      __pos, "|") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, { p })
                    } crate::peg::RuleResult::Failed => {
                      __err_state.mark_failure(__pos, "\"|\""); crate::peg::RuleResult::Failed
                    }
                  }
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            }
          } crate::peg::RuleResult::Failed => {
            __err_state.mark_failure(__pos, "\"|\""); crate::peg::RuleResult::Failed
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_pipe_plain [seq]
fn __parse_pipe_plain<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<Breakable> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_plain(rest(__input@, __pos)) == Some((rest(__input@, n), v)), crate::peg::RuleResult::Failed => g_plain(rest(__input@, __pos)) is None } @*/ {
        match crate::peg::ParseLiteral::parse_string_literal(__input,
            __pos, "|") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, { Breakable::Terminate })
          } crate::peg::RuleResult::Failed => {
            __err_state.mark_failure(__pos, "\"|\""); crate::peg::RuleResult::Failed
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_pipe [seq]
fn __parse_pipe<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_pipe(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_pipe(rest(__input@, __pos)) is None } @*/ { /*@ proof { lemma_words(); } let ghost s0 = rest(__input@, __pos); proof { lemma_run(s0, blank()); assert(s0.skip(0) =~= s0); } @*/
        {
          let __seq_res =
            {
              let mut __repeat_pos = __pos; /*! #[verifier::allow_complex_invariants] !*/
              loop /*@ invariant ok(__input@, __pos), ok(__input@, __repeat_pos), __pos <= __repeat_pos, ran(rest(__input@, __pos), rest(__input@, __repeat_pos), blank()) ensures run(rest(__input@, __repeat_pos), blank()) == 0 @*/ { /*@ proof { lemma_words(); if rest(__input@, __repeat_pos).len() > 0 { lemma_lit(rest(__input@, __repeat_pos), " "@); if (blank())(rest(__input@, __repeat_pos)[0]) { lemma_step(rest(__input@, __pos), rest(__input@, __repeat_pos), blank()); } } } @*/
                let __pos = __repeat_pos;
                let __step_res =
                  match crate::peg::ParseLiteral::parse_string_literal(__input,
                      __pos, " ") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                    } crate::peg::RuleResult::Failed => {
                      __err_state.mark_failure(__pos, "\" \""); crate::peg::RuleResult::Failed
                    }
                  };
                match __step_res { crate::peg::RuleResult::Matched(__newpos, __value) => {
                    __repeat_pos = __newpos;
                  } crate::peg::RuleResult::Failed => { break; }
                }
              } crate::peg::RuleResult::Matched(__repeat_pos, ())
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, _) => {
              {
                let __seq_res =
                  {
                    let __choice_res =
                      __parse_pipe_type(__input, __state, __err_state, __pos);
                    match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed =>
                        __parse_pipe_plain(__input, __state, __err_state, __pos),
                    }
                  };
                match __seq_res { crate::peg::RuleResult::Matched(__pos, p) => {
                    {
                      let __seq_res =
                        {
                          let mut __repeat_pos = __pos; /*! #[verifier::allow_complex_invariants] !*/
                          loop /*@ invariant ok(__input@, __pos), ok(__input@, __repeat_pos), __pos <= __repeat_pos, ran(rest(__input@, __pos), rest(__input@, __repeat_pos), blank()) ensures run(rest(__input@, __repeat_pos), blank()) == 0 @*/ { /*@ proof { lemma_words(); if rest(__input@, __repeat_pos).len() > 0 { lemma_lit(rest(__input@, __repeat_pos), " "@); if (blank())(rest(__input@, __repeat_pos)[0]) { lemma_step(rest(__input@, __pos), rest(__input@, __repeat_pos), blank()); } } } @*/
                            let __pos = __repeat_pos;
                            let __step_res =
                              match crate::peg::ParseLiteral::parse_string_literal(__input,
                                  __pos, " ") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, __val)
                                } crate::peg::RuleResult::Failed => {
                                  __err_state.mark_failure(__pos, "\" \""); crate::peg::RuleResult::Failed
                                }
                              };
                            match __step_res { crate::peg::RuleResult::Matched(__newpos, __value) => {
                                __repeat_pos = __newpos;
                              } crate::peg::RuleResult::Failed => { break; }
                            }
                          } crate::peg::RuleResult::Matched(__repeat_pos, ())
                        };
                      match __seq_res { crate::peg::RuleResult::Matched(__pos, _) => { crate::peg::RuleResult::Matched(__pos, { ParserConnection::Pipe(p) })
                        } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                      }
                    }
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_middle_full [seq]
fn __parse_component_middle_full<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_middle_full(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_middle_full(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_in_port(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, l) => {
              {
                let __seq_res =
                  __parse_identifier(__input, __state, __err_state, __pos);
                match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => {
                    {
                      let __seq_res =
                        __parse_out_port(__input, __state, __err_state, __pos);
                      match __seq_res { crate::peg::RuleResult::Matched(__pos, o) => { crate::peg::RuleResult::Matched(__pos,
                                  {
                                    ParserConnection::Connection(Connection::MiddleConnection {
                                        component_type: i.0,
                                        component_name: i.1,
                                        input_port: l,
                                        output_port: o,
                                        connection_set: None,
                                      })
                                  })
                        } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                      }
                    }
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_middle_default_output [seq]
fn __parse_component_middle_default_output<'input>(__input:
          &'input Input<>, __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_middle_in(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_middle_in(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_in_port(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, l) => {
              {
                let __seq_res =
                  __parse_identifier(__input, __state, __err_state, __pos);
                match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => { crate::peg::RuleResult::Matched(__pos,
                            {
                              ParserConnection::Connection(Connection::MiddleConnection {
                                  component_type: i.0,
                                  component_name: i.1,
                                  input_port: l,
                                  output_port: OutputPort::Out,
                                  connection_set: None,
                                })
                            })
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_middle_default_input [seq]
fn __parse_component_middle_default_input<'input>(__input:
          &'input Input<>, __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_middle_out(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_middle_out(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_identifier(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => {
              {
                let __seq_res =
                  __parse_out_port(__input, __state, __err_state, __pos);
                match __seq_res { crate::peg::RuleResult::Matched(__pos, o) => { crate::peg::RuleResult::Matched(__pos,
                            {
                              ParserConnection::Connection(Connection::MiddleConnection {
                                  component_type: i.0,
                                  component_name: i.1,
                                  input_port: InputPort {
                                    breakable: Breakable::Terminate,
                                    priority: 0,
                                  },
                                  output_port: o,
                                  connection_set: None,
                                })
                            })
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_middle_quick [seq]
fn __parse_component_middle_quick<'input>(__input:
          &'input Input<>, __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_middle_quick(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_middle_quick(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_identifier(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => { crate::peg::RuleResult::Matched(__pos,
                      {
                        ParserConnection::Connection(Connection::MiddleConnection {
                            component_type: i.0,
                            component_name: i.1,
                            input_port: InputPort {
                              breakable: Breakable::Terminate,
                              priority: 0,
                            },
                            output_port: OutputPort::Out,
                            connection_set: None,
                          })
                      })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_middle [seq]
fn __parse_component_middle<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_middle(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_middle(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            {
              let __choice_res =
                __parse_component_middle_full(__input, __state, __err_state,
                  __pos);
              match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                  let __choice_res =
                    __parse_component_middle_default_input(__input, __state,
                      __err_state, __pos);
                  match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
                      let __choice_res =
                        __parse_component_middle_default_output(__input, __state,
                          __err_state, __pos);
                      match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed =>
                          __parse_component_middle_quick(__input, __state,
                            __err_state, __pos),
                      }
                    }
                  }
                }
              }
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, x) => { crate::peg::RuleResult::Matched(__pos, { x })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_start_full [seq]
fn __parse_component_start_full<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_start_full(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_start_full(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_identifier(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => {
              {
                let __seq_res =
                  __parse_out_port(__input, __state, __err_state, __pos);
                match __seq_res { crate::peg::RuleResult::Matched(__pos, o) => { crate::peg::RuleResult::Matched(__pos,
                            {
                              ParserConnection::Connection(Connection::StartConnection {
                                  component_type: i.0,
                                  component_name: i.1,
                                  output_port: o,
                                  connection_set: None,
                                })
                            })
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_start_quick [seq]
fn __parse_component_start_quick<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_start_quick(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_start_quick(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_identifier(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => { crate::peg::RuleResult::Matched(__pos,
                      {
                        ParserConnection::Connection(Connection::StartConnection {
                            component_type: i.0,
                            component_name: i.1,
                            output_port: OutputPort::Out,
                            connection_set: None,
                          })
                      })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_start [seq]
fn __parse_component_start<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_start(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_start(rest(__input@, __pos)) is None } @*/ {
        {
          let __choice_res =
            __parse_component_start_full(__input, __state, __err_state,
              __pos);
          match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed => {
              let __seq_res =
                __parse_component_start_quick(__input, __state, __err_state,
                  __pos);
              match __seq_res { crate::peg::RuleResult::Matched(__pos, c) => { crate::peg::RuleResult::Matched(__pos, { c })
                } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
              }
            }
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_end_full [seq]
fn __parse_component_end_full<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_end_full(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_end_full(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_in_port(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, l) => {
              {
                let __seq_res =
                  __parse_identifier(__input, __state, __err_state, __pos);
                match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => { crate::peg::RuleResult::Matched(__pos,
                            {
                              ParserConnection::Connection(Connection::EndConnection {
                                  component_type: i.0,
                                  component_name: i.1,
                                  input_port: l,
                                  connection_set: None,
                                })
                            })
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_end_quick [seq]
fn __parse_component_end_quick<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_end_quick(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_end_quick(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_identifier(__input, __state, __err_state, __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, i) => { crate::peg::RuleResult::Matched(__pos,
                      {
                        ParserConnection::Connection(Connection::EndConnection {
                            component_type: i.0,
                            component_name: i.1,
                            input_port: InputPort {
                              breakable: Breakable::Terminate,
                              priority: 0,
                            },
                            connection_set: None,
                          })
                      })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_component_end [seq]
fn __parse_component_end<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<ParserConnection> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_end(rest(__input@, __pos)) == Some((rest(__input@, n), tok(v))), crate::peg::RuleResult::Failed => g_end(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            {
              let __choice_res =
                __parse_component_end_full(__input, __state, __err_state,
                  __pos);
              match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed =>
                  __parse_component_end_quick(__input, __state, __err_state,
                    __pos),
              }
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, c) => { crate::peg::RuleResult::Matched(__pos, { c })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_line_middle [seq]
fn __parse_line_middle<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<Vec<ParserConnection>> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_line(rest(__input@, __pos)) == Some((rest(__input@, n), toks(v@))), crate::peg::RuleResult::Failed => g_line(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            __parse_component_middle(__input, __state, __err_state,
              __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, m) => {
              {
                let __seq_res =
                  __parse_pipe(__input, __state, __err_state, __pos);
                match __seq_res { crate::peg::RuleResult::Matched(__pos, p) => { crate::peg::RuleResult::Matched(__pos,
                            { vec!
                                  [m, p]
                            })
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn connection_set_has [seq]
pub fn connection_set_has<'input>(__input: &'input Input<>)
        -> /*! (r__: !*/Result<Vec<ParserConnection>, crate::peg::error::ParseError<PositionRepr<>>> /*! ) !*/ /*@ ensures match r__ { Ok(v) => whole(g_has(__input@)) == Some(toks(v@)), Err(_) => whole(g_has(__input@)) is None } @*/ {
        let mut __err_state = crate::peg::error::ErrorState::new( crate::peg::Parse::start(__input));
        let mut __state = ParseState::new();
        match __parse_connection_set_has(__input, &mut __state,
            &mut __err_state, crate::peg::Parse::start(__input)) { crate::peg::RuleResult::Matched(__pos, __value) => {
            if crate::peg::Parse::is_eof(__input, __pos) {
              return Ok(__value)
            } else { __err_state.mark_failure(__pos, "EOF"); }
          }
          _ => (),
        }
        __state = ParseState::new();
        __err_state.reparse_for_error();
        match __parse_connection_set_has(__input, &mut __state,
            &mut __err_state, crate::peg::Parse::start(__input)) { crate::peg::RuleResult::Matched(__pos, __value) => {
            if crate::peg::Parse::is_eof(__input, __pos) {
              { crate::peg::never();
              };
            } else { __err_state.mark_failure(__pos, "EOF"); }
          }
          _ => (),
        }
        Err(__err_state.into_parse_error(__input))
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_connection_set_has [seq]
fn __parse_connection_set_has<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<Vec<ParserConnection>> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_has(rest(__input@, __pos)) == Some((rest(__input@, n), toks(v@))), crate::peg::RuleResult::Failed => g_has(rest(__input@, __pos)) is None } @*/ { /*@ hide(g_start); hide(g_pipe); hide(g_end); hide(g_line); hide(tok); @*/
        {
          let __seq_res =
            __parse_component_start(__input, __state, __err_state,
              __pos);
          match __seq_res { crate::peg::RuleResult::Matched(__pos, s) => {
              {
                let __seq_res =
                  __parse_pipe(__input, __state, __err_state, __pos);
                match __seq_res { crate::peg::RuleResult::Matched(__pos, p) => {
                    {
                      let __seq_res =
                        {
                          let mut __repeat_pos = __pos;
                          let mut __repeat_value =Vec::new(); /*! #[verifier::allow_complex_invariants] !*/
                          loop /*@ invariant ok(__input@, __pos), ok(__input@, __repeat_pos), __pos <= __repeat_pos, g_lines(rest(__input@, __pos)).0 == g_lines(rest(__input@, __repeat_pos)).0, g_lines(rest(__input@, __pos)).1 =~= flat(__repeat_value@) + g_lines(rest(__input@, __repeat_pos)).1 ensures g_line(rest(__input@, __repeat_pos)) is None @*/ { /*@ let ghost v0 = __repeat_value@; proof { lemma_line(rest(__input@, __repeat_pos)); } @*/
                            let __pos = __repeat_pos;
                            let __step_res =
                              __parse_line_middle(__input, __state, __err_state, __pos);
                            match __step_res { crate::peg::RuleResult::Matched(__newpos, __value) => {
                                __repeat_pos = __newpos;
                                __repeat_value.push(__value); /*@ proof { assert(__repeat_value@.drop_last() =~= v0); assert(flat(__repeat_value@) == flat(v0) + toks(__value@)); } @*/
                              } crate::peg::RuleResult::Failed => { break; }
                            }
                          } crate::peg::RuleResult::Matched(__repeat_pos, __repeat_value)
                        };
                      match __seq_res { crate::peg::RuleResult::Matched(__pos, m) => {
                          {
                            let __seq_res =
                              __parse_component_end(__input, __state, __err_state, __pos);
                            match __seq_res { crate::peg::RuleResult::Matched(__pos, e) => { crate::peg::RuleResult::Matched(__pos,
                                        {
                                          let mut r = vec!
                                                [s];
                                          r.push(p); /*@ let ghost r0 = r@; let ghost mg = m@; proof { assert(toks(r0) =~= seq![tok(s), tok(p)]); assert(mg.take(0) =~= Seq::empty()); } @*/
                                          for m_item in /*! it0__: !*/ m /*@ invariant it0__.seq() == mg, r@.len() >= 2, toks(r@) =~= toks(r0) + flat(mg.take(it0__.index() as int)) @*/ { /*@ let ghost k = it0__.index() as int; let ghost rb = r@; proof { assert(mg.take(k + 1).drop_last() =~= mg.take(k)); } @*/ let mut m_item = m_item; r.append(&mut m_item); /*@ proof { assert(toks(r@) =~= toks(rb) + toks(mg[k]@)); } @*/ }
                                          /*@ let ghost r1 = r@; proof { assert(mg.take(mg.len() as int) =~= mg); } @*/ r.extend_from_slice(&[e]); /*@ proof { assert(toks(r@) =~= toks(r1).push(tok(e))); } @*/
                                          r
                                        })
                              } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                            }
                          }
                        } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                      }
                    }
                  } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
                }
              }
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn connection_set_none [seq]
pub fn connection_set_none<'input>(__input: &'input Input<>)
        -> /*! (r__: !*/Result<Vec<ParserConnection>, crate::peg::error::ParseError<PositionRepr<>>> /*! ) !*/ /*@ ensures match r__ { Ok(v) => whole(g_none(__input@)) == Some(toks(v@)), Err(_) => whole(g_none(__input@)) is None } @*/ {
        let mut __err_state = crate::peg::error::ErrorState::new( crate::peg::Parse::start(__input));
        let mut __state = ParseState::new();
        match __parse_connection_set_none(__input, &mut __state,
            &mut __err_state, crate::peg::Parse::start(__input)) { crate::peg::RuleResult::Matched(__pos, __value) => {
            if crate::peg::Parse::is_eof(__input, __pos) {
              return Ok(__value)
            } else { __err_state.mark_failure(__pos, "EOF"); }
          }
          _ => (),
        }
        __state = ParseState::new();
        __err_state.reparse_for_error();
        match __parse_connection_set_none(__input, &mut __state,
            &mut __err_state, crate::peg::Parse::start(__input)) { crate::peg::RuleResult::Matched(__pos, __value) => {
            if crate::peg::Parse::is_eof(__input, __pos) {
              { crate::peg::never();
              };
            } else { __err_state.mark_failure(__pos, "EOF"); }
          }
          _ => (),
        }
        Err(__err_state.into_parse_error(__input))
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_connection_set_none [seq]
fn __parse_connection_set_none<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<Vec<ParserConnection>> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_none(rest(__input@, __pos)) == Some((rest(__input@, n), toks(v@))), crate::peg::RuleResult::Failed => g_none(rest(__input@, __pos)) is None } @*/ { /*@ proof { lemma_words(); lemma_lit(rest(__input@, __pos), ""@); } @*/
        match crate::peg::ParseLiteral::parse_string_literal(__input,
            __pos, "") { crate::peg::RuleResult::Matched(__pos, __val) => { crate::peg::RuleResult::Matched(__pos, {Vec::new() })
          } crate::peg::RuleResult::Failed => {
            __err_state.mark_failure(__pos, "\"\""); crate::peg::RuleResult::Failed
          }
        }
      }
//@end
//@item src/config.rs :: peg connection_parser > fn connection_set [seq]
pub fn connection_set<'input>(__input: &'input Input<>)
        -> /*! (r__: !*/Result<Vec<ParserConnection>, crate::peg::error::ParseError<PositionRepr<>>> /*! ) !*/ /*@ ensures match r__ { Ok(v) => whole(g_set(__input@)) == Some(toks(v@)), Err(_) => whole(g_set(__input@)) is None } @*/ {
        let mut __err_state = crate::peg::error::ErrorState::new( crate::peg::Parse::start(__input));
        let mut __state = ParseState::new();
        match __parse_connection_set(__input, &mut __state,
            &mut __err_state, crate::peg::Parse::start(__input)) { crate::peg::RuleResult::Matched(__pos, __value) => {
            if crate::peg::Parse::is_eof(__input, __pos) {
              return Ok(__value)
            } else { __err_state.mark_failure(__pos, "EOF"); }
          }
          _ => (),
        }
        __state = ParseState::new();
        __err_state.reparse_for_error();
        match __parse_connection_set(__input, &mut __state,
            &mut __err_state, crate::peg::Parse::start(__input)) { crate::peg::RuleResult::Matched(__pos, __value) => {
            if crate::peg::Parse::is_eof(__input, __pos) {
              { crate::peg::never();
              };
            } else { __err_state.mark_failure(__pos, "EOF"); }
          }
          _ => (),
        }
        Err(__err_state.into_parse_error(__input))
      }
//@end
//@item src/config.rs :: peg connection_parser > fn __parse_connection_set [seq]
fn __parse_connection_set<'input>(__input: &'input Input<>,
        __state: &mut ParseState<'input>,
        __err_state: &mut crate::peg::error::ErrorState, __pos: usize)
        -> /*! (r__: !*/ crate::peg::RuleResult<Vec<ParserConnection>> /*! ) !*/ /*@ requires ok(__input@, __pos) ensures match r__ { crate::peg::RuleResult::Matched(n, v) => ok(__input@, n) && __pos <= n && g_set(rest(__input@, __pos)) == Some((rest(__input@, n), toks(v@))), crate::peg::RuleResult::Failed => g_set(rest(__input@, __pos)) is None } @*/ {
        {
          let __seq_res =
            {
              let __choice_res =
                __parse_connection_set_has(__input, __state, __err_state,
                  __pos);
              match __choice_res { crate::peg::RuleResult::Matched(__pos, __value) => crate::peg::RuleResult::Matched(__pos, __value), crate::peg::RuleResult::Failed =>
                  __parse_connection_set_none(__input, __state, __err_state,
                    __pos),
              }
            };
          match __seq_res { crate::peg::RuleResult::Matched(__pos, x) => { crate::peg::RuleResult::Matched(__pos, { x })
            } crate::peg::RuleResult::Failed => crate::peg::RuleResult::Failed,
          }
        }
      }
//@end
