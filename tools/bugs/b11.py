ID, PROP = "b11-txkeys-order", "H04"
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """            [crypto.encodeint(x) for x in self.additional_tx_private_keys]
""", """            [crypto.encodeint(x) for x in set(self.additional_tx_private_keys)]
""")]
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """        if dst_entr.is_subaddress:
            # R=r*D
            additional_txkey = crypto.decodepoint(dst_entr.addr.spend_public_key)
            crypto.scalarmult_into(
                additional_txkey, additional_txkey, additional_txkey_priv
            )
        else:
            # R=r*G
            additional_txkey = crypto.scalarmult_base(additional_txkey_priv)

        self.additional_tx_public_keys.append(crypto.encodepoint(additional_txkey))
        self.additional_tx_private_keys.append(additional_txkey_priv)
""", """        if dst_entr.is_subaddress:
            # R=r*D
            additional_txkey = crypto.decodepoint(dst_entr.addr.spend_public_key)
            crypto.scalarmult_into(
                additional_txkey, additional_txkey, additional_txkey_priv
            )
            self.additional_tx_private_keys.append(additional_txkey_priv)
        else:
            # R=r*G
            additional_txkey = crypto.scalarmult_base(additional_txkey_priv)

        self.additional_tx_public_keys.append(crypto.encodepoint(additional_txkey))
""")]
NEEDS = "a transaction with additional keys, one output to a main address"
BREAKS = "the secret keys kept for the wallet no longer line up with the published additional keys"
DEMO = '''
req = request("b11", pay=((ann, 0, 0), (bob, 0, 1)))
a, blob = sign(device(), req)
ct = a.last_transaction_data()
tx = parsed(req, blob)
b = ref.b2i(crypto.encodeint(me.spend_key_private))
k = ref.hmac_keccak(bytes(ct.enc_salt1), ref.keccak2(ref.i2b((b + ref.b2i(bytes(ct.enc_salt2))) % ref.L), bytes(ct.tx_prefix_hash)))
keys = ref.unbox(k, ct.enc_keys)
check(keys is not None, "the record opens")
add = ref.parse_extra(tx["extra"])["additional"]
check(len(keys) == 32 * (1 + len(add)), "one secret key per published key")
'''
