// The cursor over the keys with a prefix (src/polodb_core/cursor.rs).
pub struct Cursor { pub prefix_bytes: Vec<u8>, pub kv_cursor: RocksDBIterator, pub current_key: Option<KeyBuf> }
impl Cursor {
    pub open spec fn ok(&self) -> bool { self.kv_cursor.pos() is Some ==> self.current_key is Some && self.current_key->0@ == self.kv_cursor.pos()->0 }
    pub open spec fn pre(&self) -> Seq<u8> { self.prefix_bytes@ }
    pub open spec fn snap(&self) -> KV { self.kv_cursor.snap() }
    pub open spec fn pos(&self) -> Option<Seq<u8>> { self.kv_cursor.pos() }
    pub open spec fn same(&self, o: &Cursor) -> bool { self.prefix_bytes == o.prefix_bytes && self.snap() == o.snap() }

//@fn src/polodb_core/cursor.rs Cursor::new_with_str_prefix
//@rw any kind of string: T: Into<String> ~~> T: OwnName
//@rw any kind of string: s.into() ~~> own_name(s)
//@ret r
//@spec
    ensures r is Ok, r->Ok_0.pre() == pre1(s.onm()), r->Ok_0.kv_cursor == kv_cursor,
//@start
    proof { assert(Seq::<u8>::empty() + pre1(s.onm()) =~= pre1(s.onm())); }
//@end
//@fn src/polodb_core/cursor.rs Cursor::new
//@ret r
//@spec
    ensures r.prefix_bytes == prefix_bytes, r.kv_cursor == kv_cursor, r.current_key is None,
//@end
//@fn src/polodb_core/cursor.rs Cursor::copy_data
//@ret r
//@spec
    requires self.pos() is Some,
    ensures match r { Ok(v) => v@ == self.snap()[self.pos()->0], Err(e) => e is Storage },
//@end
//@fn src/polodb_core/cursor.rs Cursor::update_current
//@ret r
//@spec
    ensures
        *final(self) == *old(self),
        match r {
            Ok(b) => b == old(self).current_key is Some && final(txn).kv() == (if b { old(txn).kv().insert(old(self).current_key->0@, value@) } else { old(txn).kv() }),
            Err(e) => e is Storage && final(txn).kv() == old(txn).kv(),
        },
//@end
//@fn src/polodb_core/cursor.rs Cursor::reset
//@ret r
//@spec
    ensures final(self).same(old(self)), is_first(old(self).snap(), old(self).pre(), final(self).pos()),
        r is Ok ==> final(self).ok(), r is Err ==> r->Err_0 is Storage,
//@end
//@fn src/polodb_core/cursor.rs Cursor::reset_by_pkey
//@rw list argument: crate::utils::bson::stacked_key([$i_p,]) ~~> stacked_key1($i_p)
//@ret r
//@spec
    ensures final(self).same(old(self)),
        match r {
            Ok(b) => final(self).ok() && b == old(self).snap().contains_key(old(self).pre() + enc(val(*pkey)))
                && (b ==> final(self).pos() == Some(old(self).pre() + enc(val(*pkey)))),
            Err(e) => e is Storage || (e is NotAValidKeyType && !wf(val(*pkey))),
        },
//@bind let mut $i_k = self.prefix_bytes.clone();
//@before self.reset_by_custom_key($x)
    proof { assert($i_k@ =~= old(self).pre() + enc(val(*pkey))); }
//@end
//@fn src/polodb_core/cursor.rs Cursor::reset_by_custom_key
//@ret r
//@spec
    ensures final(self).same(old(self)),
        match r {
            Ok(b) => final(self).ok() && b == old(self).snap().contains_key(key_buffer@) && (b ==> final(self).pos() == Some(key_buffer@)),
            Err(e) => e is Storage,
        },
//@after self.kv_cursor.seek(key_buffer);
    proof {
        lemma_le_refl(key_buffer@);
        if self.pos() is Some { lemma_le_total(self.pos()->0, key_buffer@); }
    }
//@end
//@fn src/polodb_core/cursor.rs Cursor::reset_by_index_value
//@ret r
//@spec
    ensures final(self).same(old(self)),
        match r {
            Ok(b) => final(self).ok() && wf(val(*index_value))
                && is_first(old(self).snap(), old(self).pre() + enc(val(*index_value)), final(self).pos())
                && b == (final(self).pos() is Some && pref(old(self).pre() + enc(val(*index_value)), final(self).pos()->0)),
            Err(e) => e is Storage || (e is NotAValidKeyType && !wf(val(*index_value))),
        },
//@end
//@fn src/polodb_core/cursor.rs Cursor::peek_key
//@ret r
//@spec
    ensures r is Some == self.current_key is Some, r is Some ==> r->0@ == self.current_key->0@,
//@end
//@fn src/polodb_core/cursor.rs Cursor::has_next
//@ret r
//@spec
    requires self.ok(),
    ensures r == (self.pos() is Some && pref(self.pre(), self.pos()->0)),
//@end
//@fn src/polodb_core/cursor.rs Cursor::next
//@ret r
//@spec
    requires old(self).pos() is Some,
    ensures final(self).same(old(self)), is_next(old(self).snap(), old(self).pos()->0, final(self).pos()),
        r is Ok ==> final(self).ok(), r is Err ==> r->Err_0 is Storage,
        r is Ok && final(self).pos() is None ==> final(self).current_key is None,
//@end
}
