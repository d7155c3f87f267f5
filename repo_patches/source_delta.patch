From cb8209f8637152fdb0cf071c5feecced5fc47d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:44 +0000
Subject: [PATCH 01/35] fix: push OP_RETURN payloads above 75 bytes with
 OP_PUSHDATA1

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..c732899 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -482,7 +482,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From b217f62a6650d2744285e758a19c7e4f3d155e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 02/35] fix: never pay less than the requested fee rate

Count varints, message outputs and empty witnesses as serialised, and only
accept a changeless match that covers the estimated fee.
---
 bit/transaction.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c732899..c74531a 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -12,7 +12,6 @@ from bit.utils import (
     bytes_to_hex,
     chunk_data,
     hex_to_bytes,
-    int_to_unknown_bytes,
     int_to_varint,
     script_push,
     get_signatures_from_script,
@@ -184,9 +183,9 @@ def estimate_tx_fee(in_size, n_in, out_size, n_out, satoshis, segwit=False):
 
     estimated_size = math.ceil(
         in_size
-        + len(int_to_unknown_bytes(n_in, byteorder='little'))
+        + len(int_to_varint(n_in))
         + out_size
-        + len(int_to_unknown_bytes(n_out, byteorder='little'))
+        + len(int_to_varint(n_out))
         + 8
         # Accounting for magic header vBytes ('0001') 
         + (0.5 if segwit else 0)
@@ -234,6 +233,14 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
     # COST_OF_OVERHEAD excludes the return address of output_size (last element).
     COST_OF_OVERHEAD = (8 + sum(output_size[:-1]) + 1) * fee
 
+    def estimate_fee(coins, output_size):
+        in_size = sum(u.vsize for u in coins)
+        segwit = any(u.segwit for u in coins)
+        if segwit:
+            # Every input without a witness still carries an empty one:
+            in_size += 0.25 * sum(not u.segwit for u in coins)
+        return estimate_tx_fee(in_size, len(coins), sum(output_size), len(output_size), fee, segwit)
+
     def branch_and_bound(d, selected_coins, effective_value, target, fee, sorted_unspents):  # pragma: no cover
 
         nonlocal COST_OF_OVERHEAD, BNB_TRIES
@@ -253,7 +260,9 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
         # Check for solution and cut criteria:
         if effective_value > target_to_match + match_range:
             return []
-        elif effective_value >= target_to_match:
+        elif effective_value >= target_to_match and sum(u.amount for u in selected_coins) >= target + estimate_fee(
+            selected_coins, output_size[:-1]
+        ):
             return selected_coins
         elif BNB_TRIES <= 0:
             return []
@@ -315,10 +324,7 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
             shuffle(unspents)
         while unspents:
             selected_coins.append(unspents.pop(0))
-            estimated_fee = estimate_tx_fee(
-                sum(u.vsize for u in selected_coins), len(selected_coins), sum(output_size), len(output_size), fee, any(u.segwit for u in selected_coins)
-            )
-            estimated_fee = fee if absolute_fee else estimated_fee
+            estimated_fee = fee if absolute_fee else estimate_fee(selected_coins, output_size)
             remaining = sum(u.amount for u in selected_coins) - target - estimated_fee
             if remaining >= min_change and (not consolidate or len(unspents) == 0):
                 break
@@ -419,7 +425,7 @@ def sanitize_tx_data(
     # Include return address in output count.
     # Calculate output size as a list (including return address).
     output_size = [len(address_to_scriptpubkey(o[0])) + 9 for o in outputs]
-    output_size.append(len(messages) * (MESSAGE_LIMIT + 9))
+    output_size.extend(len(OP_RETURN + script_push(len(m[0]))) + len(m[0]) + 9 for m in messages)
     output_size.append(len(address_to_scriptpubkey(leftover)) + 9)
     sum_outputs = sum(out[1] for out in outputs)
 
-- 
2.43.0


From d3444f68560ccafee5d8854a57f696071226edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:17 +0000
Subject: [PATCH 03/35] fix: do not create transactions without outputs when
 sweeping with combine=False

---
 bit/transaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c74531a..e8e0c83 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -306,7 +306,8 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
     sorted_unspents = sorted(unspents, key=lambda u: u.amount, reverse=True)
     selected_coins = []
 
-    if not consolidate and not absolute_fee:
+    # Without outputs other than the return address there is nothing to match.
+    if not consolidate and not absolute_fee and len(output_size) > 1:
         # Trying to find a perfect match using Branch-and-Bound:
         selected_coins = branch_and_bound(
             d=0, selected_coins=[], effective_value=0, target=target, fee=fee, sorted_unspents=sorted_unspents
-- 
2.43.0


From 4664c6d09ac3160627720c8b77a2e1388b4a50d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:31 +0000
Subject: [PATCH 04/35] fix: coin selection no longer exceeds the recursion
 limit with many unspents

---
 bit/transaction.py | 69 +++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index e8e0c83..b1e79f0 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -241,10 +241,9 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
             in_size += 0.25 * sum(not u.segwit for u in coins)
         return estimate_tx_fee(in_size, len(coins), sum(output_size), len(output_size), fee, segwit)
 
-    def branch_and_bound(d, selected_coins, effective_value, target, fee, sorted_unspents):  # pragma: no cover
+    def branch_and_bound(target, fee, sorted_unspents):  # pragma: no cover
 
         nonlocal COST_OF_OVERHEAD, BNB_TRIES
-        BNB_TRIES -= 1
         COST_PER_INPUT = 148 * fee  # Just typical estimate values
         COST_PER_OUTPUT = 34 * fee
 
@@ -257,51 +256,37 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
         # perfect match:
         # match_range += int(0.1 * fee * sum(u.vsize for u in selected_coins))
 
-        # Check for solution and cut criteria:
-        if effective_value > target_to_match + match_range:
-            return []
-        elif effective_value >= target_to_match and sum(u.amount for u in selected_coins) >= target + estimate_fee(
-            selected_coins, output_size[:-1]
-        ):
-            return selected_coins
-        elif BNB_TRIES <= 0:
-            return []
-        elif d >= len(sorted_unspents):
-            return []
-        else:
+        # Explored depth-first with an explicit stack, as wallets can hold more
+        # unspents than Python allows nested calls.
+        branches = [(0, [], 0)]
+        while branches and BNB_TRIES > 0:
+            BNB_TRIES -= 1
+            d, selected_coins, effective_value = branches.pop()
+
+            # Check for solution and cut criteria:
+            if effective_value > target_to_match + match_range:
+                continue
+            elif effective_value >= target_to_match and sum(u.amount for u in selected_coins) >= target + estimate_fee(
+                selected_coins, output_size[:-1]
+            ):
+                return selected_coins
+            elif d >= len(sorted_unspents):
+                continue
+
+            effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+            with_this = (d + 1, selected_coins + [sorted_unspents[d]], effective_value_new)
+            without_this = (d + 1, selected_coins, effective_value)
+
             # Randomly explore next branch:
             binary_random = randint(0, 1)
             if binary_random:
                 # Explore inclusion branch first, else omission branch:
-                effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
-
-                with_this = branch_and_bound(
-                    d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                )
-
-                if with_this != []:
-                    return with_this
-                else:
-                    without_this = branch_and_bound(
-                        d + 1, selected_coins, effective_value, target, fee, sorted_unspents
-                    )
-
-                    return without_this
-
+                branches += [without_this, with_this]
             else:
                 # As above but explore omission branch first:
-                without_this = branch_and_bound(d + 1, selected_coins, effective_value, target, fee, sorted_unspents)
+                branches += [with_this, without_this]
 
-                if without_this != []:
-                    return without_this
-                else:
-                    effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
-
-                    with_this = branch_and_bound(
-                        d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                    )
-
-                    return with_this
+        return []
 
     sorted_unspents = sorted(unspents, key=lambda u: u.amount, reverse=True)
     selected_coins = []
@@ -309,9 +294,7 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
     # Without outputs other than the return address there is nothing to match.
     if not consolidate and not absolute_fee and len(output_size) > 1:
         # Trying to find a perfect match using Branch-and-Bound:
-        selected_coins = branch_and_bound(
-            d=0, selected_coins=[], effective_value=0, target=target, fee=fee, sorted_unspents=sorted_unspents
-        )
+        selected_coins = branch_and_bound(target=target, fee=fee, sorted_unspents=sorted_unspents)
         remaining = 0
 
     # Fallback: If no match, Single Random Draw with return address:
-- 
2.43.0


From 644ee155feb58459edf4c2db82e6cdcc06a73b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 05/35] fix: messages in prepared transactions

---
 bit/wallet.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 03ee956..57b033f 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -455,7 +455,7 @@ class PrivateKey(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -474,7 +474,8 @@ class PrivateKey(BaseKey):
             assert unspents is None
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
-            outputs = data['outputs']
+            # Messages carry no amount and are stored as hex:
+            outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
         except:  # May be hex-encoded transaction using batching:
@@ -854,7 +855,7 @@ class PrivateKeyTestnet(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -873,7 +874,8 @@ class PrivateKeyTestnet(BaseKey):
             assert unspents is None
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
-            outputs = data['outputs']
+            # Messages carry no amount and are stored as hex:
+            outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
         except:  # May be hex-encoded transaction using batching:
@@ -1225,7 +1227,7 @@ class MultiSig:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1244,7 +1246,8 @@ class MultiSig:
             assert unspents is None
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
-            outputs = data['outputs']
+            # Messages carry no amount and are stored as hex:
+            outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
         except:  # May be hex-encoded partially-signed transaction or using batching:
@@ -1553,7 +1556,7 @@ class MultiSigTestnet:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1572,7 +1575,8 @@ class MultiSigTestnet:
             assert unspents is None
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
-            outputs = data['outputs']
+            # Messages carry no amount and are stored as hex:
+            outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
         except:  # May be hex-encoded partially-signed transaction or using batching:
-- 
2.43.0


From 737fe698bae33fa7e8c81fc4133070bb2cc802d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:06 +0000
Subject: [PATCH 06/35] fix: honour compressed=False when preparing
 transactions

---
 bit/transaction.py | 5 +++++
 bit/wallet.py      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index b1e79f0..c9ae2f8 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -394,6 +394,11 @@ def sanitize_tx_data(
     if not unspents:
         raise ValueError('Transactions must have at least one unspent.')
 
+    if not compressed:
+        for unspent in unspents:
+            if unspent.type == 'p2pkh':
+                unspent.set_type('p2pkh-uncompressed')
+
     # Temporary storage so all outputs precede messages.
     messages = []
 
diff --git a/bit/wallet.py b/bit/wallet.py
index 57b033f..9239960 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -447,6 +447,7 @@ class PrivateKey(BaseKey):
             leftover or address,
             combine=combine,
             message=message,
+            compressed=compressed,
             absolute_fee=absolute_fee,
             version='main',
             message_is_hex=message_is_hex,
@@ -847,6 +848,7 @@ class PrivateKeyTestnet(BaseKey):
             leftover or address,
             combine=combine,
             message=message,
+            compressed=compressed,
             absolute_fee=absolute_fee,
             version='test',
             message_is_hex=message_is_hex,
@@ -1219,6 +1221,7 @@ class MultiSig:
             leftover or address,
             combine=combine,
             message=message,
+            compressed=compressed,
             absolute_fee=absolute_fee,
             version='main',
             message_is_hex=message_is_hex,
@@ -1548,6 +1551,7 @@ class MultiSigTestnet:
             leftover or address,
             combine=combine,
             message=message,
+            compressed=compressed,
             absolute_fee=absolute_fee,
             version='test',
             message_is_hex=message_is_hex,
-- 
2.43.0


From 65c6d4a45972d1bacfecaad9cb432967431d5f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 07/35] fix: pad multisig inputs by the signatures kept, so
 signing twice keeps them well-formed

---
 bit/transaction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c9ae2f8..d7f9d8d 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -646,9 +646,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -664,6 +661,11 @@ def sign_tx(private_key, tx, *, unspents):
 
             sigs[public_key] = signature
 
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
+
             witness = b''
             # Sort ingthe signatures according to the public-key list:
             for pub in private_key.public_keys:
-- 
2.43.0


From f526e02ded89beded64034e3a82b2fd550b0e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:10 +0000
Subject: [PATCH 08/35] fix: serialise an empty witness for every input lacking
 one in segwit transactions

---
 bit/transaction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index d7f9d8d..44ba0f0 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -151,7 +151,9 @@ class TxObj:
     def __bytes__(self):
         inp = int_to_varint(len(self.TxIn)) + b''.join(map(bytes, self.TxIn))
         out = int_to_varint(len(self.TxOut)) + b''.join(map(bytes, self.TxOut))
-        wit = b''.join([w.witness for w in self.TxIn])
+        wit = b''
+        if any(i.witness for i in self.TxIn):
+            wit = b''.join([i.witness or b'\x00' for i in self.TxIn])
         return b''.join([self.version, MARKER if wit else b'', FLAG if wit else b'', inp, out, wit, self.locktime])
 
     def legacy_repr(self):
-- 
2.43.0


From 02d3406db7fdbc70a624c6e0be9aba9b861ba55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 09/35] fix: exact node balances without changing the global
 decimal precision

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..7110e05 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), 'btc')
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From 48702791d89a75c405dc707ebe6b5b45d6d35f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:50 +0000
Subject: [PATCH 10/35] fix: node credentials with special characters

---
 bit/network/services.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 7110e05..301f840 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,6 +1,7 @@
 import requests
 import json
 import logging
+from urllib.parse import quote
 
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
@@ -20,7 +21,12 @@ class RPCHost:
     def __init__(self, user, password, host, port, use_https, path):
         self._session = requests.Session()
         self._url = "http{s}://{user}:{password}@{host}:{port}/{path}".format(
-            s="s" if use_https else "", user=user, password=password, host=host, port=port, path=path
+            s="s" if use_https else "",
+            user=quote(user, safe=''),
+            password=quote(password, safe=''),
+            host=host,
+            port=port,
+            path=path,
         )
         self._headers = {"content-type": "application/json"}
         self._session.verify = use_https
-- 
2.43.0


From 3f6ce70dbef2a10feb232816cbf5ffa6714cb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:07 +0000
Subject: [PATCH 11/35] fix: fall back to the next provider when Bitcore
 answers a balance query with an error

---
 bit/network/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 301f840..8ea0b15 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -616,13 +616,15 @@ class BitcoreAPI(InsightAPI):
     @classmethod
     def get_balance(cls, address):
         r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
     def get_balance_testnet(cls, address):
         r = requests.get(cls.TEST_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
-- 
2.43.0


From 6adca88a0e0990c291ccfc8a8edcbc48bafb4a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:26 +0000
Subject: [PATCH 12/35] fix: check the status of follow-up pages so that
 failures fall back to the next provider

---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 8ea0b15..a7ffcbf 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -390,7 +390,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -417,7 +420,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         return transactions
@@ -607,9 +613,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -650,9 +659,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -702,7 +714,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From 039b5912cf851d82b77112af6791981459e42282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:44 +0000
Subject: [PATCH 13/35] fix: Blockchair reports no unspents for unknown
 addresses as an empty list

---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index a7ffcbf..0f63e89 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -230,7 +230,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -273,7 +273,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From 05921f12770200ef7e9d9af3d81af5adaf3929cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 14/35] fix: Blockstream testnet unspents of excessive
 addresses are not empty

---
 bit/network/services.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 0f63e89..e8e9a05 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -488,7 +488,10 @@ class BlockstreamAPI:
 
         r = requests.get(cls.TEST_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
-        if r.status_code == 400:  # pragma: no cover
+        #! BlockstreamAPI blocks addresses with "too many" UTXOs.
+        if r.status_code == 400 and r.text == "Too many history entries":
+            raise ExcessiveAddress
+        elif r.status_code == 400:  # pragma: no cover
             return []
         elif r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-- 
2.43.0


From bf0f0840f6e54b0c2ab2c8f066067e2ca930279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:15 +0000
Subject: [PATCH 15/35] fix: Blockstream testnet transactions include
 unconfirmed ones

---
 bit/network/services.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index e8e9a05..0d6db98 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -402,10 +402,26 @@ class BlockstreamAPI:
 
     @classmethod
     def get_transactions_testnet(cls, address):
+        #! Blockstream returns at most 50 mempool (unconfirmed) transactions and ignores the rest
+        mempool_endpoint = cls.TEST_ADDRESS_API + '/txs/mempool'
+
         endpoint = cls.TEST_ADDRESS_API + '/txs/chain/{}'
 
         transactions = []
 
+        # Add mempool (unconfirmed) transactions
+        r = requests.get(mempool_endpoint.format(address), timeout=DEFAULT_TIMEOUT)
+        if r.status_code == 400:  # pragma: no cover
+            return []
+        elif r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
+        unconfirmed = [tx['txid'] for tx in r.json()]
+
+        # It is safer to raise exception if API returns exactly 50 unconfirmed
+        # transactions, as there could be more that the API is unaware of.
+        if len(unconfirmed) == 50:  # pragma: no cover
+            raise ExcessiveAddress
+
         r = requests.get(endpoint.format(address, ''), timeout=DEFAULT_TIMEOUT)
         if r.status_code == 400:  # pragma: no cover
             return []
@@ -413,7 +429,7 @@ class BlockstreamAPI:
             raise ConnectionError
         response = r.json()
 
-        # The first 50 mempool and 25 confirmed transactions are shown with no
+        # The first 25 confirmed transactions are shown with no
         # indication of the number of total transactions.
         total_txs = len(response)
 
@@ -426,6 +442,8 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
+        transactions.extend(unconfirmed)
+
         return transactions
 
     @classmethod
-- 
2.43.0


From a27790f16692e3cbb11e23a567993292d0f5ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 16/35] fix: generated keys are exported as compressed,
 matching the generated address

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From 14c25e7a0005a4e45251b87c64290a79410e5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:53 +0000
Subject: [PATCH 17/35] fix: reject Base58Check strings of the wrong length as
 addresses

---
 bit/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..8743a44 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -45,7 +45,10 @@ def address_to_public_key_hash(address):
 def get_version(address):
     version, _ = bech32_decode(address)
     if version is None:
-        version = b58decode_check(address)[:1]
+        decoded = b58decode_check(address)
+        if len(decoded) != 21:
+            raise ValueError('{} is not the length of an address.'.format(len(decoded)))
+        version = decoded[:1]
     if version in (MAIN_PUBKEY_HASH, MAIN_SCRIPT_HASH) or version in BECH32_MAIN_VERSION_SET:
         return 'main'
     elif version in (TEST_PUBKEY_HASH, TEST_SCRIPT_HASH) or version in BECH32_TEST_VERSION_SET:
-- 
2.43.0


From 8671fe81a883708241371e2326e7f69e697de6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:13 +0000
Subject: [PATCH 18/35] fix: malformed signatures do not verify instead of
 raising

---
 bit/format.py | 5 ++++-
 bit/wallet.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bit/format.py b/bit/format.py
index 8743a44..12566c9 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -33,7 +33,10 @@ def verify_sig(signature, data, public_key):
     :type public_key: ``bytes``
     :returns: ``True`` if all checks pass, ``False`` otherwise.
     """
-    return _vs(signature, data, public_key)
+    try:
+        return _vs(signature, data, public_key)
+    except ValueError:
+        return False
 
 
 def address_to_public_key_hash(address):
diff --git a/bit/wallet.py b/bit/wallet.py
index 9239960..edb89f3 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -104,7 +104,10 @@ class BaseKey:
         :type data: ``bytes``
         :rtype: ``bool``
         """
-        return self._pk.public_key.verify(signature, data)
+        try:
+            return self._pk.public_key.verify(signature, data)
+        except ValueError:
+            return False
 
     def pub_to_hex(self):
         """:rtype: ``str``"""
-- 
2.43.0


From d6512c4b53eaf8bbafe566333e2cd7f0c31fa437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 19/35] fix: sort the keys of a multisig set regardless of
 their encoding

---
 bit/wallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index edb89f3..7a767de 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -982,9 +982,9 @@ class MultiSig:
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
         self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        if type(public_keys) == set:
+            self.public_keys.sort()
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
@@ -1307,9 +1307,9 @@ class MultiSigTestnet:
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
         self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        if type(public_keys) == set:
+            self.public_keys.sort()
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
-- 
2.43.0


From 472a94682169f18d2e3995fead323cc0d8914e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:51 +0000
Subject: [PATCH 20/35] fix: reject WIF of the wrong length or with an unknown
 compression flag

---
 bit/format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/format.py b/bit/format.py
index 12566c9..931103a 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -91,10 +91,12 @@ def wif_to_bytes(wif):
         raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))
 
     # Remove version byte and, if present, compression flag.
-    if len(wif) == 52 and private_key[-1] == 1:
+    if len(private_key) == 34 and private_key[-1] == 1:
         private_key, compressed = private_key[1:-1], True
-    else:
+    elif len(private_key) == 33:
         private_key, compressed = private_key[1:], False
+    else:
+        raise ValueError('The private key is of invalid length or has an unknown compression flag.')
 
     return private_key, compressed, version
 
-- 
2.43.0


From 35a25912cee2b084734217ebaa8bb7866351ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 21/35] fix: keep the fractions of exchange rates when
 converting

The number of satoshi one unit of a currency is worth was truncated to an
integer before use: one yen became 6 satoshi instead of 6.67, and one won
became zero, which made every conversion from it zero and every conversion
to it a division by zero.
---
 bit/network/rates.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index cc9222c..98fb3dc 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -109,7 +109,7 @@ class BitpayRates:
         r = requests.get(cls.SINGLE_RATE + currency, headers=headers)
         r.raise_for_status()
         rate = r.json()['data']['rate']
-        return int(ONE / Decimal(rate) * BTC)
+        return ONE / Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -204,7 +204,7 @@ class BlockchainRates:
         r = requests.get(cls.SINGLE_RATE.format(currency))
         r.raise_for_status()
         rate = r.text
-        return int(Decimal(rate) * BTC)
+        return Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -618,7 +618,7 @@ def currency_to_satoshi_local_cache(f):
             cached_rate.satoshis = EXCHANGE_RATES[currency]()
             cached_rate.last_update = now
 
-        return int(cached_rate.satoshis * Decimal(amount))
+        return cached_rate.satoshis * Decimal(amount)
 
     return wrapper
 
@@ -639,7 +639,7 @@ def currency_to_satoshi_cached(amount, currency):
     :type currency: ``str``
     :rtype: ``int``
     """
-    return currency_to_satoshi_local_cached(amount, currency)
+    return int(currency_to_satoshi_local_cached(amount, currency))
 
 
 def satoshi_to_currency(num, currency):
@@ -671,7 +671,7 @@ def satoshi_to_currency_cached(num, currency):
     :rtype: ``str``
     """
     return '{:f}'.format(
-        Decimal(num / Decimal(currency_to_satoshi_cached(1, currency)))
+        Decimal(num / currency_to_satoshi_local_cached(1, currency))
         .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN)
         .normalize()
     )
-- 
2.43.0


From b56565aa76159aed9653fa2ca21eb6123060a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:23 +0000
Subject: [PATCH 22/35] fix: do not repeat a mistyped private key in the error
 message

Importing a WIF whose checksum does not match raised a ValueError that
contained the whole string, which then ends up in logs and crash reports.
---
 bit/base58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/base58.py b/bit/base58.py
index e3ef427..7f2a3f9 100644
--- a/bit/base58.py
+++ b/bit/base58.py
@@ -71,9 +71,9 @@ def b58decode_check(string):
     hash_checksum = double_sha256_checksum(shortened)
 
     if decoded_checksum != hash_checksum:
+        # The string is not part of the message as it can be a private key.
         raise ValueError(
-            'Decoded checksum {} derived from "{}" is not equal to hash '
-            'checksum {}.'.format(decoded_checksum, string, hash_checksum)
+            'Decoded checksum {} is not equal to hash checksum {}.'.format(decoded_checksum, hash_checksum)
         )
 
     return shortened
-- 
2.43.0


From 1266a835ce7c2c4566efdf8c75b2e01caba51eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:25 +0000
Subject: [PATCH 23/35] fix: creating a transaction does not alter the unspents
 it is given

---
 bit/transaction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 44ba0f0..d8e2fb9 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -1,5 +1,6 @@
 import logging
 from collections import namedtuple
+from copy import copy
 from itertools import islice
 import math
 import re
@@ -396,6 +397,9 @@ def sanitize_tx_data(
     if not unspents:
         raise ValueError('Transactions must have at least one unspent.')
 
+    # The unspents (and their list) belong to the caller, leave them as they are.
+    unspents = [copy(unspent) for unspent in unspents]
+
     if not compressed:
         for unspent in unspents:
             if unspent.type == 'p2pkh':
-- 
2.43.0


From 2827eb99760609aa383c06a11417d0757c140d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:15 +0000
Subject: [PATCH 24/35] fix: a failed synchronisation leaves the wallet as it
 was

---
 bit/wallet.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 7a767de..429e93c 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -234,14 +234,15 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+            unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -250,9 +251,10 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = list(NetworkAPI.get_transactions(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -633,16 +635,17 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent_testnet(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent_testnet(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -651,9 +654,10 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = list(NetworkAPI.get_transactions_testnet(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1076,11 +1080,12 @@ class MultiSig:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize:
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
+        unspents = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wsh', add_np2wsh_vsize), NetworkAPI.get_unspent(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1089,9 +1094,10 @@ class MultiSig:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = list(NetworkAPI.get_transactions(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1401,16 +1407,17 @@ class MultiSigTestnet:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(
+        unspents = list(
             map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent_testnet(self.address))
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(
                     lambda u: u.set_type('np2wsh', add_np2wsh_vsize),
                     NetworkAPI.get_unspent_testnet(self.segwit_address),
                 )
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1419,9 +1426,10 @@ class MultiSigTestnet:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = list(NetworkAPI.get_transactions_testnet(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
-- 
2.43.0


From c4faaa66f206c898586ac07c28ed66f4e54d7588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:41 +0000
Subject: [PATCH 25/35] fix: a fee of zero is not replaced by the recommended
 fee

---
 bit/wallet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 429e93c..c536877 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -314,7 +314,7 @@ class PrivateKey(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -448,7 +448,7 @@ class PrivateKey(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -717,7 +717,7 @@ class PrivateKeyTestnet(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -851,7 +851,7 @@ class PrivateKeyTestnet(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent_testnet(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -1157,7 +1157,7 @@ class MultiSig:
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -1226,7 +1226,7 @@ class MultiSig:
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -1489,7 +1489,7 @@ class MultiSigTestnet:
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -1558,7 +1558,7 @@ class MultiSigTestnet:
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent_testnet(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
-- 
2.43.0


From 660bfd59aec5df7fcedd9351eedab595edd97246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:41 +0000
Subject: [PATCH 26/35] fix: an empty list of unspents does not spend those of
 the wallet

---
 bit/wallet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index c536877..0f5bb21 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -304,7 +304,7 @@ class PrivateKey(BaseKey):
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -446,7 +446,7 @@ class PrivateKey(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent(address),
+            NetworkAPI.get_unspent(address) if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
@@ -707,7 +707,7 @@ class PrivateKeyTestnet(BaseKey):
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -849,7 +849,7 @@ class PrivateKeyTestnet(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent_testnet(address),
+            NetworkAPI.get_unspent_testnet(address) if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
@@ -1147,7 +1147,7 @@ class MultiSig:
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -1224,7 +1224,7 @@ class MultiSig:
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent(address),
+            NetworkAPI.get_unspent(address) if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
@@ -1479,7 +1479,7 @@ class MultiSigTestnet:
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -1556,7 +1556,7 @@ class MultiSigTestnet:
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent_testnet(address),
+            NetworkAPI.get_unspent_testnet(address) if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
-- 
2.43.0


From a81bf26f206600dc19487d9e5f1aefc5652ebb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:41 +0000
Subject: [PATCH 27/35] fix: importing an empty string does not make a new key

---
 bit/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 0f5bb21..1ea09d0 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -56,7 +56,7 @@ class BaseKey:
     """
 
     def __init__(self, wif=None):
-        if wif:
+        if wif is not None:
             if isinstance(wif, str):
                 private_key_bytes, compressed, version = wif_to_bytes(wif)
                 self._pk = ECPrivateKey(private_key_bytes)
-- 
2.43.0


From 6c55a7712fad152a8bb3c432df286d9b2afa2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:41 +0000
Subject: [PATCH 28/35] fix: multisig contracts require at least one signature

---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 931103a..64b9cab 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -148,6 +148,9 @@ def public_key_to_segwit_address(public_key, version='main'):
 
 def multisig_to_redeemscript(public_keys, m):
 
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
+
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
 
-- 
2.43.0


From f92ed503f5be7d575505eb9aaf4c3fe0d9dd2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:08 +0000
Subject: [PATCH 29/35] fix: preparing from the segwit address over the network
 gives a valid transaction

---
 bit/wallet.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 1ea09d0..4655a9a 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -22,7 +22,7 @@ from bit.transaction import (
     deserialize,
     address_to_scriptpubkey,
 )
-from bit.constants import OP_0, OP_PUSH_20, OP_PUSH_32
+from bit.constants import OP_0, OP_HASH160, OP_PUSH_20, OP_PUSH_32
 
 from bit.utils import hex_to_bytes, bytes_to_hex, int_to_varint
 
@@ -445,8 +445,14 @@ class PrivateKey(BaseKey):
         :returns: JSON storing data required to create an offline transaction.
         :rtype: ``str``
         """
+        if unspents is None:
+            unspents = NetworkAPI.get_unspent(address)
+            # The only script hash address of a key is its nested segwit one.
+            if address_to_scriptpubkey(address).startswith(OP_HASH160):
+                unspents = [unspent.set_type('np2wkh') for unspent in unspents]
+
         unspents, outputs = sanitize_tx_data(
-            NetworkAPI.get_unspent(address) if unspents is None else unspents,
+            unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
@@ -848,8 +854,14 @@ class PrivateKeyTestnet(BaseKey):
         :returns: JSON storing data required to create an offline transaction.
         :rtype: ``str``
         """
+        if unspents is None:
+            unspents = NetworkAPI.get_unspent_testnet(address)
+            # The only script hash address of a key is its nested segwit one.
+            if address_to_scriptpubkey(address).startswith(OP_HASH160):
+                unspents = [unspent.set_type('np2wkh') for unspent in unspents]
+
         unspents, outputs = sanitize_tx_data(
-            NetworkAPI.get_unspent_testnet(address) if unspents is None else unspents,
+            unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
-- 
2.43.0


From 85ecebae5be7e0ecc813a21de68f9d884fd96cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 30/35] fix: refuse to deserialize what is not exactly one
 transaction

Cut off or followed by anything else, a transaction was still accepted (and
"signed"); an odd number of hexadecimal digits was filled up at the front.
---
 bit/transaction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index d8e2fb9..c549dc4 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -326,7 +326,7 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
 
 def deserialize(tx):
     if isinstance(tx, str) and re.match('^[0-9a-fA-F]*$', tx):
-        return deserialize(hex_to_bytes(tx))
+        return deserialize(bytes.fromhex(tx))
 
     segwit_tx = TxObj.is_segwit(tx)
 
@@ -361,7 +361,11 @@ def deserialize(tx):
                 witness += w
             inputs[i].witness = witness
 
-    locktime, _ = read_bytes(tx, 4)
+    locktime, tx = read_bytes(tx, 4)
+
+    # Anything cut off earlier leaves no complete locktime.
+    if len(locktime) != 4 or tx:
+        raise ValueError('Not exactly one complete transaction.')
 
     txobj = TxObj(version, inputs, outputs, locktime)
 
-- 
2.43.0


From ab31954e68d62567d5bbd219dc8e05177dac17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 31/35] fix: sign prepared transactions without ever asking the
 network

Damaged or contradictory data was taken for a raw transaction, for which the
unspents are fetched. Whether unspents given in addition were refused depended
on the optimisation level of the interpreter (assert).
---
 bit/wallet.py | 108 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 44 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 4655a9a..56a437a 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -483,24 +483,29 @@ class PrivateKey(BaseKey):
         """
         try:  # Json-tx-data from :func:`~bit.Key.prepare_transaction`
             data = json.loads(tx_data)
-            assert unspents is None
+        except ValueError:  # May be hex-encoded transaction using batching
+            data = None
+
+        if isinstance(data, dict):
+            if unspents is not None:
+                raise ValueError('Prepared transaction data already holds the unspents to spend.')
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
             # Messages carry no amount and are stored as hex:
             outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
-        except:  # May be hex-encoded transaction using batching:
-            try:
-                unspents = unspents or self.get_unspents()
-            except ConnectionError:
-                raise ConnectionError(
-                    'All APIs are unreachable. Please provide the unspent '
-                    'inputs as unspents directly to sign this transaction.'
-                )
 
-            tx_data = deserialize(tx_data)
-            return sign_tx(self, tx_data, unspents=unspents)
+        tx_data = deserialize(tx_data)
+        try:
+            unspents = unspents or self.get_unspents()
+        except ConnectionError:
+            raise ConnectionError(
+                'All APIs are unreachable. Please provide the unspent '
+                'inputs as unspents directly to sign this transaction.'
+            )
+
+        return sign_tx(self, tx_data, unspents=unspents)
 
     @classmethod
     def from_hex(cls, hexed):
@@ -892,24 +897,29 @@ class PrivateKeyTestnet(BaseKey):
         """
         try:  # Json-tx-data from :func:`~bit.Key.prepare_transaction`
             data = json.loads(tx_data)
-            assert unspents is None
+        except ValueError:  # May be hex-encoded transaction using batching
+            data = None
+
+        if isinstance(data, dict):
+            if unspents is not None:
+                raise ValueError('Prepared transaction data already holds the unspents to spend.')
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
             # Messages carry no amount and are stored as hex:
             outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
-        except:  # May be hex-encoded transaction using batching:
-            try:
-                unspents = unspents or self.get_unspents()
-            except ConnectionError:
-                raise ConnectionError(
-                    'All APIs are unreachable. Please provide the unspent '
-                    'inputs as unspents directly to sign this transaction.'
-                )
 
-            tx_data = deserialize(tx_data)
-            return sign_tx(self, tx_data, unspents=unspents)
+        tx_data = deserialize(tx_data)
+        try:
+            unspents = unspents or self.get_unspents()
+        except ConnectionError:
+            raise ConnectionError(
+                'All APIs are unreachable. Please provide the unspent '
+                'inputs as unspents directly to sign this transaction.'
+            )
+
+        return sign_tx(self, tx_data, unspents=unspents)
 
     @classmethod
     def from_hex(cls, hexed):
@@ -1267,24 +1277,29 @@ class MultiSig:
         """
         try:  # Json-tx-data from :func:`~bit.Key.prepare_transaction`
             data = json.loads(tx_data)
-            assert unspents is None
+        except ValueError:  # May be hex-encoded partially-signed transaction or using batching
+            data = None
+
+        if isinstance(data, dict):
+            if unspents is not None:
+                raise ValueError('Prepared transaction data already holds the unspents to spend.')
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
             # Messages carry no amount and are stored as hex:
             outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
-        except:  # May be hex-encoded partially-signed transaction or using batching:
-            try:
-                unspents = unspents or self.get_unspents()
-            except ConnectionError:
-                raise ConnectionError(
-                    'All APIs are unreachable. Please provide the unspent '
-                    'inputs as unspents directly to sign this transaction.'
-                )
 
-            tx_data = deserialize(tx_data)
-            return sign_tx(self, tx_data, unspents=unspents)
+        tx_data = deserialize(tx_data)
+        try:
+            unspents = unspents or self.get_unspents()
+        except ConnectionError:
+            raise ConnectionError(
+                'All APIs are unreachable. Please provide the unspent '
+                'inputs as unspents directly to sign this transaction.'
+            )
+
+        return sign_tx(self, tx_data, unspents=unspents)
 
     def __repr__(self):
         return '<MultiSig: {}>'.format(self.address)
@@ -1599,24 +1614,29 @@ class MultiSigTestnet:
         """
         try:  # Json-tx-data from :func:`~bit.Key.prepare_transaction`
             data = json.loads(tx_data)
-            assert unspents is None
+        except ValueError:  # May be hex-encoded partially-signed transaction or using batching
+            data = None
+
+        if isinstance(data, dict):
+            if unspents is not None:
+                raise ValueError('Prepared transaction data already holds the unspents to spend.')
 
             unspents = [Unspent.from_dict(unspent) for unspent in data['unspents']]
             # Messages carry no amount and are stored as hex:
             outputs = [(dest if amount else hex_to_bytes(dest), amount) for dest, amount in data['outputs']]
 
             return create_new_transaction(self, unspents, outputs)
-        except:  # May be hex-encoded partially-signed transaction or using batching:
-            try:
-                unspents = unspents or self.get_unspents()
-            except ConnectionError:
-                raise ConnectionError(
-                    'All APIs are unreachable. Please provide the unspent '
-                    'inputs as unspents directly to sign this transaction.'
-                )
 
-            tx_data = deserialize(tx_data)
-            return sign_tx(self, tx_data, unspents=unspents)
+        tx_data = deserialize(tx_data)
+        try:
+            unspents = unspents or self.get_unspents()
+        except ConnectionError:
+            raise ConnectionError(
+                'All APIs are unreachable. Please provide the unspent '
+                'inputs as unspents directly to sign this transaction.'
+            )
+
+        return sign_tx(self, tx_data, unspents=unspents)
 
     def __repr__(self):
         return '<MultiSigTestnet: {}>'.format(self.address)
-- 
2.43.0


From e807cce1ef649ebfb9b9fea1894d7055c9f82c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:56 +0000
Subject: [PATCH 32/35] fix: refuse a negative fee, which would spend more than
 there is

---
 bit/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index c549dc4..7abb03e 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -401,6 +401,9 @@ def sanitize_tx_data(
     if not unspents:
         raise ValueError('Transactions must have at least one unspent.')
 
+    if fee < 0:
+        raise ValueError('The fee must not be negative.')
+
     # The unspents (and their list) belong to the caller, leave them as they are.
     unspents = [copy(unspent) for unspent in unspents]
 
-- 
2.43.0


From 90dc8a03b5d9de161c56f710afa7ad65e06c38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:41 +0000
Subject: [PATCH 33/35] fix: accept the own public key in upper-case hex in a
 multisig contract

---
 bit/wallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 56a437a..e54eb06 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -997,7 +997,7 @@ class MultiSig:
         if private_key.instance != 'PrivateKey':
             raise TypeError('MultiSig only accepts a PrivateKey class to assign a private key.')
 
-        if bytes_to_hex(private_key.public_key) not in public_keys and private_key.public_key not in public_keys:
+        if private_key.public_key not in [k if type(k) == bytes else hex_to_bytes(k) for k in public_keys]:
             raise ValueError('Private key does not match any provided public key.')
 
         if type(public_keys) not in (list, set):
@@ -1329,7 +1329,7 @@ class MultiSigTestnet:
         if private_key.instance != 'PrivateKeyTestnet':
             raise TypeError('MultiSigTesnet only accepts PrivateKeyTestnet class to assign a private key.')
 
-        if bytes_to_hex(private_key.public_key) not in public_keys and private_key.public_key not in public_keys:
+        if private_key.public_key not in [k if type(k) == bytes else hex_to_bytes(k) for k in public_keys]:
             raise ValueError('Private key does not match any provided public key.')
 
         if type(public_keys) not in (list, set):
-- 
2.43.0


From 6181b22545d24e053fad08840102f096d15a363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:39 +0000
Subject: [PATCH 34/35] fix: sign unspents whose script is given in upper-case
 hex

---
 bit/wallet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index e54eb06..25f360c 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -201,9 +201,9 @@ class PrivateKey(BaseKey):
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def to_wif(self):
         return bytes_to_wif(self._pk.secret, version=self.version, compressed=self.is_compressed())
@@ -613,9 +613,9 @@ class PrivateKeyTestnet(BaseKey):
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def to_wif(self):
         return bytes_to_wif(self._pk.secret, version=self.version, compressed=self.is_compressed())
@@ -1054,9 +1054,9 @@ class MultiSig:
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def sign(self, data):  # pragma: no cover
         """Signs some data which can be verified later by others using
@@ -1386,9 +1386,9 @@ class MultiSigTestnet:
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def sign(self, data):  # pragma: no cover
         """Signs some data which can be verified later by others using
-- 
2.43.0


From 9f270ad346d03d024b0cd6ec5e89d2a8e4f97275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 35/35] fix: an explicitly empty list of unspents is honoured
 when signing

sign_transaction(hex, unspents=[]) fetched the wallet's unspents and signed
with them, although the caller offered none.
---
 bit/wallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 25f360c..027c203 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -498,7 +498,7 @@ class PrivateKey(BaseKey):
 
         tx_data = deserialize(tx_data)
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError(
                 'All APIs are unreachable. Please provide the unspent '
@@ -912,7 +912,7 @@ class PrivateKeyTestnet(BaseKey):
 
         tx_data = deserialize(tx_data)
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError(
                 'All APIs are unreachable. Please provide the unspent '
@@ -1292,7 +1292,7 @@ class MultiSig:
 
         tx_data = deserialize(tx_data)
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError(
                 'All APIs are unreachable. Please provide the unspent '
@@ -1629,7 +1629,7 @@ class MultiSigTestnet:
 
         tx_data = deserialize(tx_data)
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError(
                 'All APIs are unreachable. Please provide the unspent '
-- 
2.43.0

