From 26b6d77afe411ba8cc3668e892dd6de99139707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 01/55] fix: previewing a trade on an order view
 (execute=False) changes neither the view nor its linked view

---
 carbon/carbon_order_ui.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 4ce0add..2ee65f3 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -23,6 +23,7 @@ try:
 except:
     from pair import CarbonPair
 
+from copy import copy
 from dataclasses import dataclass
 from math import sqrt, floor, log10
 from collections import namedtuple
@@ -988,7 +989,9 @@ class CarbonOrderUI:
             self.y = ynew
 
         if self.linked:
-            result_linked = self.linked.addliqy(dx)
+            # if the trade is not executed, the linked curve must not change either
+            linked = self.linked if execute else copy(self.linked)
+            result_linked = linked.addliqy(dx)
         else:
             result_linked = None
 
@@ -1041,6 +1044,15 @@ class CarbonOrderUI:
         :execute:       if False, only display results, but do not update the object
         :returns:       a dict containing extensive information about the tx
         """
+        if not execute:
+            # work on a copy so that the current object remains unchanged
+            return copy(self)._tradeto(p_marg, execute=False)
+        return self._tradeto(p_marg, execute=True)
+
+    def _tradeto(self, p_marg, execute):
+        """
+        private - implementation of `tradeto`; modifies the current object
+        """
         if self.yint == 0:
             self.yint = 1e-50 # selly fails on a fully empty curve, even with dy=0
         try:
-- 
2.43.0


From 0d389223d0df20c01359f77d0c9ec743fd50942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 02/55] fix: deleting a position also deletes a linked position
 with id 0

---
 carbon/simulators/carbon_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index eea72fa..c8a13a5 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -583,19 +583,19 @@ class CarbonSimulatorUI:
 
         del self.orders[position_id]
 
-        if linked_position_id:
+        if linked_position_id is not None:
             del self.orders[linked_position_id]
 
         if self.verbose:
             str2 = (
                 f"and linked position {linked_position_id}"
-                if linked_position_id
+                if linked_position_id is not None
                 else ""
             )
             print(f"Deleted position {position_id} {str2}[{pair}]")
 
         return (
-            [position_id, linked_position_id] if linked_position_id else [position_id]
+            [position_id, linked_position_id] if linked_position_id is not None else [position_id]
         )
     delete_strategy = delete_order
 
-- 
2.43.0


From 62cc8c22c6342ca92be6c81283e4923ec1ee9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 03/55] fix: negative trade amounts keep the position
 restriction of the request

---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index c8a13a5..ab3083d 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -966,6 +966,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
@@ -1045,6 +1047,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
-- 
2.43.0


From bdec4d107f2478c663d51a5c2211f6ba174573d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 04/55] fix: add_strategy reports an unknown token as such also
 when the pair is a string or the default pair

---
 carbon/simulators/carbon_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index ab3083d..c7e14a4 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -491,7 +491,7 @@ class CarbonSimulatorUI:
             carbon_pair = self.get_carbon_pair(pair)
             tkn2 = carbon_pair.other(tkn)
             if tkn2 is None:
-                raise ValueError("Token not in pair", tkn, carbon_pair.slashpair, pair.slashpair)
+                raise ValueError("Token not in pair", tkn, carbon_pair.slashpair, carbon_pair.slashpair)
 
             # create order tracking ids
             id1 = self._posid
-- 
2.43.0


From 9ce1a5a75dad73c4decccc81d143d7c83d92bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 05/55] fix: a rejected strategy leaves no order behind (orders
 are stored only when both are valid)

---
 carbon/simulators/carbon_simulator.py | 38 +++++++++++++++------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index c7e14a4..854e8ac 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -171,7 +171,7 @@ class CarbonSimulatorUI:
         carbon_pair = self.get_carbon_pair(pair)
         return carbon_pair.price_convention
 
-    def _add_order_sell_tkn(
+    def _create_order_sell_tkn(
             self,
             tkn: str,
             amt: Any,
@@ -183,9 +183,9 @@ class CarbonSimulatorUI:
             p_marginal: Any = None,
             y_int: Any = None,
             carbon_id: str = None,
-    ) -> int:
+    ) -> Order:
         """
-        PRIVATE - adds a position for sale of tkn
+        PRIVATE - creates a position for sale of tkn (it is up to the caller to store it in self.orders)
 
         :tkn:           the token that is being added to the position, eg "ETH"; it is the token being sold*
         :amt:           the amount of `tkn` that is added to the position
@@ -196,7 +196,7 @@ class CarbonSimulatorUI:
         :p_marginal:    the marginal price of the position*
         :y_int:         the initial value of y_int (must be >= amt)*
         :carbon_id:     the carbon id of the position (if available)
-        :returns:       the id of the order added
+        :returns:       the order created
 
         *out of the parameters `p_marginal` and `y_int`, zero or one can be given, but
         not both; the casese are treated as follows
@@ -211,7 +211,7 @@ class CarbonSimulatorUI:
         #print("[_add_order_sell_tkn] y_int", y_int)
         #assert y_int is None, "yint != None not operational yet"
         if not y_int is None: 
-            #print("[_add_order_sell_tkn] WARNING. YINT != 0 NOT FULLY OPERATIONAL")
+            #print("[_create_order_sell_tkn] WARNING. YINT != 0 NOT FULLY OPERATIONAL")
             pass
         # create order tracking ids
         if id1 is None:
@@ -236,7 +236,7 @@ class CarbonSimulatorUI:
                 pp = p_lo
                 p_lo = p_hi
                 p_hi = pp
-                print("[_add_order_sell_tkn] WARNING: swapped start and end of the range")
+                print("[_create_order_sell_tkn] WARNING: swapped start and end of the range")
 
             disabled = False
 
@@ -268,9 +268,8 @@ class CarbonSimulatorUI:
         else:
             order_params["y_int"] = amt
 
-        self.orders[id1] = Order(**order_params)
         #print("[_add_order_sell_tkn] params", order_params )
-        return id1
+        return Order(**order_params)
 
     def add_order(
             self, 
@@ -385,7 +384,7 @@ class CarbonSimulatorUI:
 
             # ugly hack, but somehow we need to switch lo and hi to have the
             # boundary closer to the money always first
-            order_id = self._add_order_sell_tkn(
+            order = self._create_order_sell_tkn(
                 tkn = tkn, 
                 amt = amt, 
                 p_lo = p_end_c, 
@@ -403,8 +402,11 @@ class CarbonSimulatorUI:
                     f", p_marginal={p_marginal}, y_int={y_int}, pair={carbon_pair.pair_iso}, id={id1}, lid={id2}"
                 )
 
-            orders = self._to_pandas(self.orders[order_id], decimals=self.decimals)
-            orderuis = {order_id: CarbonOrderUI.from_order(self.orders[order_id])}
+            orders = self._to_pandas(order, decimals=self.decimals)
+            orderuis = {id1: CarbonOrderUI.from_order(order)}
+
+            # everything worked: store the order
+            self.orders[id1] = order
 
         except Exception as e:
             if self.raiseonerror:
@@ -507,7 +509,7 @@ class CarbonSimulatorUI:
 
             # ugly hack but the 1/2 range boundaries are in the wrong order
             # we want the closer boundary first
-            self._add_order_sell_tkn(
+            order1 = self._create_order_sell_tkn(
                 tkn = tkn,
                 amt = amt_sell,
                 p_lo = psell_end_c,
@@ -519,7 +521,7 @@ class CarbonSimulatorUI:
                 y_int = y_int_sell,
                 carbon_id = carbon_id,
             )
-            self._add_order_sell_tkn(
+            order2 = self._create_order_sell_tkn(
                 tkn = tkn2,
                 amt = amt_buy,
                 p_lo = pbuy_end_c,
@@ -542,16 +544,18 @@ class CarbonSimulatorUI:
             orders = pd.concat(
                 [
                     self._to_pandas(o, decimals=self.decimals)
-                    for o in [self.orders[id1], self.orders[id2]]
+                    for o in [order1, order2]
                 ]
             )
-            oui1 = CarbonOrderUI.from_order(self.orders[id1])
-            oui2 = CarbonOrderUI.from_order(self.orders[id2])
+            oui1 = CarbonOrderUI.from_order(order1)
+            oui2 = CarbonOrderUI.from_order(order2)
             oui1.set_linked(oui2)
             oui2.set_linked(oui1)            
             orderuis = {id1: oui1, id2: oui2,}
 
-
+            # everything worked: store both orders
+            self.orders[id1] = order1
+            self.orders[id2] = order2
 
         except Exception as e:
             if self.raiseonerror:
-- 
2.43.0


From 89d02b39e6c04c6a4751da71808d32121db21335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 06/55] fix: limit check of the fast matcher by target uses the
 price in the convention of the pair

---
 carbon/simulators/carbon_simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 854e8ac..4a4cfbc 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -725,6 +725,9 @@ class CarbonSimulatorUI:
             # :input:       the asset BOUGHT by the AMM, and SOLD by the TRADER
             #               input is a POSITIVE number
             raw_price = -final_route.total_output / final_route.total_input
+            if is_by_target and isinstance(self.matcher, FastRouter):
+                # the fast router exchanges input and output when matching by target
+                raw_price = 1 / raw_price
             if self.debug:
                 print("[_trade] final route", final_route)
                 print(
@@ -844,7 +847,7 @@ class CarbonSimulatorUI:
                         1
                     ],  # the number of routes across which the trade was executed
                     "price": [
-                        round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                        round(float(price_avg), decimals)
                     ],  # the price amt_/amt_, in the convention of the pair
                     "p_unit": [
                         f"{tknq} per {tknb}"
@@ -896,7 +899,7 @@ class CarbonSimulatorUI:
                 "routeix": [str(order_ids)],
                 "nroutes": [num_trades],
                 "price": [
-                    round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                    round(float(price_avg), decimals)
                     ],
                 "p_unit": [f"{tknq} per {tknb}"],
             }
-- 
2.43.0


From ff0138ad5c77cea15f2aef5f5b8ffcabc92eded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 07/55] fix: add_fromsdk reports a malformed strategy as
 configured by raiseonerror

---
 carbon/simulators/carbon_simulator.py | 33 +++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 4a4cfbc..18d0b7a 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -422,20 +422,25 @@ class CarbonSimulatorUI:
         :nsd:           number of significant decimals to round to (None=no rounding)
         :returns:       return value of add_strategy
         """
-        obuy, osell = CarbonOrderUI.from_SDK(sdkStrategy, nsd)
-        return self.add_strategy(
-            tkn = osell.tkn,
-            amt_sell = osell.y,
-            y_int_sell = osell.yint,
-            psell_start= osell.pa,
-            psell_end = osell.pb,
-            amt_buy = obuy.y,
-            y_int_buy = obuy.yint,
-            pbuy_start = obuy.pa,
-            pbuy_end = obuy.pb,
-            pair = osell.pair,
-            carbon_id = sdkStrategy["id"]
-        )
+        try:
+            obuy, osell = CarbonOrderUI.from_SDK(sdkStrategy, nsd)
+            return self.add_strategy(
+                tkn = osell.tkn,
+                amt_sell = osell.y,
+                y_int_sell = osell.yint,
+                psell_start= osell.pa,
+                psell_end = osell.pb,
+                amt_buy = obuy.y,
+                y_int_buy = obuy.yint,
+                pbuy_start = obuy.pa,
+                pbuy_end = obuy.pb,
+                pair = osell.pair,
+                carbon_id = sdkStrategy["id"]
+            )
+        except Exception as e:
+            if self.raiseonerror:
+                raise
+            return {"success": False, "error": str(e), "exception": e}
         
     def add_strategy(
             self,
-- 
2.43.0


From 7a8655b00467db16df00dfa77d3eb29349eb5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 08/55] fix: limit_is_met honours its reverse argument

---
 carbon/pair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index baf1a0e..29a6bce 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -452,7 +452,8 @@ class CarbonPair:
         if current_price == limit_price:
             return True
 
-        reverse = self.has_quotetoken(tkn)
+        # `reverse` and tkn being the quote token each invert the direction of the comparison
+        reverse = bool(reverse) != self.has_quotetoken(tkn)
 
         if buysell == self.BUY:
             # the order placer BUYs at limit or better
-- 
2.43.0


From 87d8b4e65f16fbe2d841288016cd80f7dd7d106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 09/55] fix: from_slashpair takes the decimals of both tokens
 from the tuple

---
 carbon/pair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index 29a6bce..c7e48c3 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -228,7 +228,8 @@ class CarbonPair:
         tknb = tokens[0].strip()
         tknq = tokens[1].strip()
         newobj = cls(f"{tknb}/{tknq}")
-        newobj.set_decimals(decimals)
+        if not decimals is None:
+            newobj.set_decimals(*decimals)
         return newobj
         
 
-- 
2.43.0


From b951795d790c7189e79f15095db0c072327e0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 10/55] fix: selly changes the curve only once the trade,
 including the linked curve, has been computed

---
 carbon/carbon_order_ui.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 2ee65f3..c67001e 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -976,8 +976,6 @@ class CarbonOrderUI:
             else:
                 yintold = self.yint
                 yint = ynew
-                if execute:
-                    self.yint = ynew
                 curve_expanded = True
         else:
             curve_expanded = False
@@ -985,8 +983,6 @@ class CarbonOrderUI:
             if ynew<0: ynew = 0  # see if ynew < -self.EPSILON
 
         dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
-        if execute:
-            self.y = ynew
 
         if self.linked:
             # if the trade is not executed, the linked curve must not change either
@@ -995,6 +991,10 @@ class CarbonOrderUI:
         else:
             result_linked = None
 
+        if execute:
+            self.yint = yint
+            self.y = ynew
+
         result = {
             "action":       "bysource[selly]",
             "executed":     execute,
-- 
2.43.0


From 74b14c51c4af756748c6dcade19772b860a508a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 11/55] fix: buyx returns None when the trade is not possible

---
 carbon/carbon_order_ui.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index c67001e..8ab7c83 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1033,6 +1033,8 @@ class CarbonOrderUI:
         """
         dy = self.dyfromdx_f(dx, checkbounds=False, raiseonerror=True)
         result = self.selly(dy, execute, allowneg, expandcurve, raiseonerror)
+        if result is None:
+            return None
         result["action"] = "bytarget[buyx]"
         return result
 
-- 
2.43.0


From ce4b79d07ca333326a0cf05108fac57bf28a65da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 12/55] fix: error messages of the curve functions refer to
 existing names

---
 carbon/carbon_order_ui.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 8ab7c83..f08c07c 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -548,7 +548,7 @@ class CarbonOrderUI:
         
         if self.yint == 0:
             if not self.y == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             dydx = ((self.B + self.S * y/self.yint))**2
@@ -584,7 +584,7 @@ class CarbonOrderUI:
 
         if self.yint == 0:
             if not y0 == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             if dy==0:
@@ -692,7 +692,7 @@ class CarbonOrderUI:
         if checkbounds:
             if num < 0:
                 if raiseonerror:
-                    raise ValueError("AMM does not have enough y liquidity to purchase dx", y, dx, num)
+                    raise ValueError("AMM does not have enough y liquidity to purchase dx", self.y, dx, num)
                 return None
 
         return dx * (num/denom) 
@@ -799,7 +799,7 @@ class CarbonOrderUI:
         if checkbounds:
             if y < 0:
                 if raiseonerror:
-                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, xint, y)
+                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, self.xint, y)
                 return None 
         return y
 
-- 
2.43.0


From bcf8a5a5ea9a674fe9e64cadb96c54724803b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 13/55] fix: disabled order views define all their price bounds

---
 carbon/carbon_order_ui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index f08c07c..931966b 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -88,7 +88,7 @@ class CarbonOrderUI:
         self.pa_raw = (self.S + self.B)**2
         if self.pa_raw == 0 and self.pb_raw == 0:
             self.pa_raw = None
-            self.pa_raw = None
+            self.pb_raw = None
             self.disabled = True
         else:
             self.disabled = False
@@ -104,6 +104,8 @@ class CarbonOrderUI:
                 self.pmin = self.pb
                 self.pmax = self.pa  
         else:
+            self.pa = None
+            self.pb = None
             self.pmin = None
             self.pmax = None        
     
-- 
2.43.0


From 204bf6fbe0da0c3b153742476b9f6149c0a01fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 14/55] fix: _from_SDK0 passes the capacity under the name the
 constructor expects

---
 carbon/carbon_order_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 931966b..e5da78f 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -287,7 +287,7 @@ class CarbonOrderUI:
         B = AByz['B']/scalefctr
         y = AByz['y']/decimalfctr
         z = AByz['z']/decimalfctr
-        return cls.from_BSy(pair=pair, tkn=tkn, S=S, B=B, y=y, z=z)
+        return cls.from_BSy(pair=pair, tkn=tkn, S=S, B=B, y=y, yint=z)
     
     @classmethod
     def from_SDK(cls, sdkStrategy, nsd=None):
-- 
2.43.0


From 15569ef9f4d7135a69f97cb368e5dc2d0c64df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 15/55] fix: orders with a capacity below one are matched on
 their own curve (x0 and y0 use the capacity, not at least 1)

---
 carbon/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/order.py b/carbon/order.py
index 56e2882..21a070d 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -101,7 +101,7 @@ class Order:
     def x0(self) -> Decimal:
         n: Decimal = self.n
         p: Decimal = self.p
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         return (y_int * (1 - n)) / (p * (2 - n))
 
     @property
@@ -124,7 +124,7 @@ class Order:
 
     @property
     def y0(self) -> Decimal:
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         n: Decimal = self.n
         return (y_int * (1 - n)) / (2 - n)
 
-- 
2.43.0


From c268001b3346d2457eb49ba99591715ec8680834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 16/55] fix: give every alpha router and quote its own helper
 object

---
 carbon/routers/alpha_router.py      | 2 +-
 carbon/routers/alpha_router_orig.py | 2 +-
 carbon/routers/base_router.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index adc20fe..c138f85 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -16,7 +16,7 @@ class AlphaRouter(BaseRouter):
     """
 
     use_positions_matchlevel: List[int] = None
-    exact_router: ExactRouterX0Y0N = ExactRouterX0Y0N()
+    exact_router: ExactRouterX0Y0N = field(default_factory=ExactRouterX0Y0N)
 
     # returns an enumerated list with only values >= val
     def bigger_than(lst, val):
diff --git a/carbon/routers/alpha_router_orig.py b/carbon/routers/alpha_router_orig.py
index a717e13..689f8e1 100644
--- a/carbon/routers/alpha_router_orig.py
+++ b/carbon/routers/alpha_router_orig.py
@@ -14,7 +14,7 @@ class AlphaRouter(BaseRouter):
     """
 
     use_positions_matchlevel: List[int] = None
-    exact_router: ExactRouterX0Y0N = ExactRouterX0Y0N()
+    exact_router: ExactRouterX0Y0N = field(default_factory=ExactRouterX0Y0N)
 
     def get_geoprice(self, subject: int) -> DecFloatInt:
         """
diff --git a/carbon/routers/base_router.py b/carbon/routers/base_router.py
index 133cb33..ccf615b 100644
--- a/carbon/routers/base_router.py
+++ b/carbon/routers/base_router.py
@@ -33,7 +33,7 @@ class Quote:
     """
 
     index: int = 0
-    rate: Rate = Rate()
+    rate: Rate = field(default_factory=Rate)
 
 
 @dataclass
-- 
2.43.0


From 3906ee5d4038ec0a929e145545d2a147c17831a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 17/55] fix: raw_json must not rewrite the record it prints

---
 carbon/sdk/carbonsdk.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 65f53a6..ed30932 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -398,12 +398,10 @@ class EncodedStrategy():
     @property
     def raw_json(self):
         """returns the raw field as a json string"""
-        raw = self.raw
-        raw["id"] = str(raw["id"])
+        raw = {**self.raw, "id": str(self.raw["id"])}
         for dk in ["order0", "order1"]:
-            for k in raw[dk]:
-                raw[dk][k] = str(raw[dk][k])
-        return json.dumps(self.raw, indent=4)
+            raw[dk] = {k: str(v) for k, v in self.raw[dk].items()}
+        return json.dumps(raw, indent=4)
     
     @property
     def descr(self):
-- 
2.43.0


From ed3368aa97c382573a0cc33f4d747779333e7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 18/55] fix: edge and curve filters without criteria must not
 hand out the container's own list

---
 carbon/tools/arbgraphs.py | 2 +-
 carbon/tools/cpc.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 7bab36f..0b73c41 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1217,7 +1217,7 @@ class ArbGraph(_DCBase):
         if not node is None:
             return [edge for edge in self.edges if edge.node_in == node or edge.node_out == node]
         elif node_in is None and node_out is None:
-            return self.edges
+            return list(self.edges)
         elif node_in is None:
             return [edge for edge in self.edges if edge.node_out == node_out]
         elif node_out is None:
diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 2fd16f4..bb98f83 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1368,7 +1368,7 @@ class CPCContainer():
     def bytknxs(self, tknxs=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
         if tknxs is None:
-            return self.curves
+            return self._convert((c for c in self), asgenerator=asgenerator, ascc=ascc)
         if isinstance(tknxs, str):
             tknxs = set(t.strip() for t in tknxs.split(","))
         tknxs = set(tknxs)
@@ -1385,7 +1385,7 @@ class CPCContainer():
     def bytknys(self, tknys=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tkny (tknb) (as tuple, generator or CC object)"""
         if tknys is None:
-            return self.curves
+            return self._convert((c for c in self), asgenerator=asgenerator, ascc=ascc)
         if isinstance(tknys, str):
             tknys = set(t.strip() for t in tknys.split(","))
         tknys = set(tknys)
-- 
2.43.0


From b0a194cdde1a893af7da105d133bc0b30a30c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 19/55] fix: from_univ3 curves record the constructor that made
 them

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index bb98f83..ad61a04 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -345,7 +345,7 @@ class ConstantProductCurve():
         xa = x0 - sqrt(k/p_max)
         ya = y0 - sqrt(k*p_min)
         constr = constr or "pkpp"
-        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr="pkpp", params=params)
+        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr=constr, params=params)
     
     @classmethod
     def from_univ2(cls, x_tknb=None, y_tknq=None, k=None, pair=None, fee=None, cid=None, descr=None, params=None):
-- 
2.43.0


From 3fc9ae6c101bc10e4ea51124202ff8b39b014257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 20/55] fix: inverted curves without a price bound have no
 price bound (p_min, p_max raised TypeError)

---
 carbon/tools/cpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index ad61a04..4f95198 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1806,11 +1806,13 @@ class CPCInverter():
     
     @property
     def p_min(self):
-        return 1/self.curve.p_max
+        p_max = self.curve.p_max
+        return 1/p_max if p_max is not None else None
     
     @property
     def p_max(self):
-        return 1/self.curve.p_min
+        p_min = self.curve.p_min
+        return 1/p_min if p_min is not None else None
     
     @property
     def y_act(self):
-- 
2.43.0


From 70e4fed35594e7391e73d111ec7384e53e100d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 21/55] fix: curves added to a container take the container's
 token scale

---
 carbon/tools/cpc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 4f95198..0d31e5e 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -968,6 +968,7 @@ class CPCContainer():
         else:
             pass
             #print("[add] item.cid =", item.cid)
+        item.set_tokenscale(self.tokenscale)
         self.curves_by_cid[item.cid] = item
         self.curveix_by_curve[item] = len(self)
         self.curves += [item]
-- 
2.43.0


From 4dd3a08c94adb8e1033c99578b5d1bb1514c6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 22/55] fix: graph transport accepts amounts

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 0b73c41..6e18088 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1709,8 +1709,8 @@ class ArbGraph(_DCBase):
 
         # if amount_in is a Amount, ensure the token is correct
         if isinstance(amount_in, Amount):
-            if amount_in.token != node_in.token:
-                raise ValueError(f"amount_in token {amount_in.token} does not match node_in token {node_in.token}")
+            if amount_in.node != node_in:
+                raise ValueError(f"amount_in token {amount_in.node} does not match node_in token {node_in}")
             amount_in = amount_in.amount
 
         # get the edges
-- 
2.43.0


From 59d91e8d0a6fc9a5f3adf4d435909e649b118747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 23/55] fix: a rejected edge transport leaves no trace

---
 carbon/tools/arbgraphs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 6e18088..b247d82 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -602,15 +602,15 @@ class Edge(_DCBase):
         amount_out = amount_in * self.amount_out / self.amount_in
         
         if record:
-            self.state.amount_in_remaining -= amount_in
-            if self.state.amount_in_remaining < -EPS:
-                if raiseonerror:
+            if raiseonerror:
+                # check before anything is recorded, so that a rejected transaction leaves no trace
+                if self.state.amount_in_remaining - amount_in < -EPS:
                     raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {self.state.amount_in_remaining}")
+                if self.node_in.state.amount - amount_in < -EPS:
+                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
+            self.state.amount_in_remaining -= amount_in
             self.node_out.state.amount += amount_out
             self.node_in.state.amount -= amount_in
-            if self.node_in.state.amount < -EPS:
-                if raiseonerror:
-                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
         return Amount(amount_out, self.node_out)
 
     def __str__(self):
-- 
2.43.0


From 4475c8da4fb2d39a01f49ad817102f50aa52d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 24/55] fix: duplicated edges keep their id and quote direction

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index b247d82..0b51ac8 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -498,7 +498,7 @@ class Edge(_DCBase):
         """
         duplicate an edge with all values the same except ix
         """
-        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse)
+        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse, uid=self.uid)
 
     def reverse(self):
         """
@@ -911,7 +911,7 @@ class ArbGraph(_DCBase):
         nodes = {node.tkn: Node(node.tkn) for node in self.nodes}
         if not consolidate:
             edges = (Edge(edge.node_in, edge.amount_in, edge.node_out, edge.amount_out, 
-                                        edge.inverse, uid=edge.uid) for edge in self.edges)
+                                        inverse=edge.inverse, uid=edge.uid) for edge in self.edges)
         else:
             edges = ( self.filter_edges(nin, nout)
                             for nin in self.nodes for nout in self.nodes if nin != nout)
-- 
2.43.0


From 4c0f75f164d500ed097cb9af2025d6878fde29cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 25/55] fix: degree matrix and formatted arbitrage cycle
 results

---
 carbon/tools/arbgraphs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 0b51ac8..68c0385 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1400,7 +1400,7 @@ class ArbGraph(_DCBase):
         degree = dict(degree)
         if not as_matrix:
             return degree
-        matrix = np.diag([degree.get(node, 0) for node in G.nodes()])
+        matrix = np.diag([degree.get(node.ix, 0) for node in self.nodes])
         return matrix
     
     def in_degree(self, as_matrix=False):
@@ -1483,7 +1483,7 @@ class ArbGraph(_DCBase):
             return super().asdict(dct=dct, exclude=exclude, include=include)
         
         def astuple(self, include_cycle=True):
-            return tuple(self.asdict(include_cycle).values())
+            return tuple(self.asdict(include_cycle=include_cycle).values())
         
         def tokens(self):
             return ", ".join(str(t.tkn) for t in self.cycle.data)
@@ -1652,12 +1652,12 @@ class ArbGraph(_DCBase):
         :format:       same as in `run_arbitrage_cycles`
         """
         if format is None:
-            format = self.ACREF_DF
+            format = self.ACRET_DF
 
         arbcycles = rawresults
         if format == self.ACRET_GEN or format == self.ACRET_TUPLE:
             return rawresults
-        arbcycles_dcts = tuple(r.asdict(False) for r in arbcycles)
+        arbcycles_dcts = tuple(r.asdict(include_cycle=False) for r in arbcycles)
         if format == self.ACRET_DICTS:
             return arbcycles_dcts
         df0 = pd.DataFrame.from_dict(arbcycles_dcts)
-- 
2.43.0


From a2cdcc1c853f9832da34c466d1e9bbbca000eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 26/55] fix: cycle pairs start where asked

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 68c0385..b4290f0 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -795,7 +795,7 @@ class Cycle(_DCBase):
         """
         runs pairs and returns the results as slashpairs
         """
-        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs()]
+        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs(start_ix=start_ix, start_val=start_val)]
     
     def run_arbitrage_cycle(self, token=None, **params):
         """
-- 
2.43.0


From 3cea4e4bfa9b322aa12d435117d59ebd95a4f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 27/55] fix: arbitrage cycle result prints its return per step

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index b4290f0..6d2f7f2 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1473,7 +1473,7 @@ class ArbGraph(_DCBase):
         amount_out: float=None
 
         def __str__(self):
-            return f"RACResult(profit: {self.profit:2.1f} [{self.token}], in: {self.amount_in:2.1f}, rpcs: {self.ppcs*100:.1f}%, ppcs: {self.ppcs:.1f}, len: {self.length},  uid: {self.cycle.uid})"
+            return f"RACResult(profit: {self.profit:2.1f} [{self.token}], in: {self.amount_in:2.1f}, rpcs: {self.rpcs*100:.1f}%, ppcs: {self.ppcs:.1f}, len: {self.length},  uid: {self.cycle.uid})"
         
         def asdict(self, *, include_cycle=True, exclude=None, include=None):
             dct =  {**asdict(self), "tokens": self.tokens(), "length": self.length, "r": self.r, 
-- 
2.43.0


From 6b524ef407f3c671f7ede6d5e738a6221ea0110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 28/55] fix: integer encoding error names the value it was
 given

---
 carbon/helpers/floatint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/floatint.py b/carbon/helpers/floatint.py
index 287f271..543f8f9 100644
--- a/carbon/helpers/floatint.py
+++ b/carbon/helpers/floatint.py
@@ -63,7 +63,7 @@ class CarbonFloatInt64():
         
         bindig = cls.bindig(rawint)
         exponent = bindig - cls.BITS_SIGNIFICANT
-        assert exponent <= 2**cls.BITS_EXPONENT, f"exponent must be <= {2**cls.BITS_EXPONENT}, is {exponent} [{intval}]"
+        assert exponent <= 2**cls.BITS_EXPONENT, f"exponent must be <= {2**cls.BITS_EXPONENT}, is {exponent} [{rawint}]"
         if exponent <= 0:
             return cls(rawint, 0)
         return cls(rawint >> exponent, exponent)
-- 
2.43.0


From e7ca1393c4d2d5e4de869793cb645e2128fe7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 29/55] fix: strategy record differences use the names that
 exist

---
 carbon/helpers/strategym.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 6d466ad..76d207f 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -9,6 +9,7 @@ from dataclasses import dataclass as _dataclass
 from math import sqrt as _sqrt
 from copy import copy as _copy
 from math import isnan as _isnan
+import pandas as _pd
 
 @_dataclass
 class strategy():
@@ -457,14 +458,14 @@ class strategy():
         r0k = tuple(rr)[0]
         r0 = rr[r0k]
         if not asdf:
-            result = {k:dr(r, r0, purge) for k,r in rr.items()}
+            result = {k:strategy.dr(r, r0, purge) for k,r in rr.items()}
             if not baseline:
                 return result
             result[r0k] = {k:v for k,v in r0.items() if not k in ["id0", "comment"]}
             return result
         else:
-            result = {k:dr(r, r0, purge=False) for k,r in rr.items()}
-            df = pd.DataFrame.from_records(result).T.fillna("")
+            result = {k:strategy.dr(r, r0, purge=False) for k,r in rr.items()}
+            df = _pd.DataFrame.from_records(result).T.fillna("")
             del df["id0"]
             if not comment: 
                 del df["comment"]
-- 
2.43.0


From 574d9556a74fa93e622b9822e1c92b378a1128b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 30/55] fix: a failed API request is reported as an API error

---
 carbon/sdk/carbonsdk0.py | 1 +
 carbon/sdk/sdkbase.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 049a3e9..0605456 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -553,6 +553,7 @@ class CarbonSDK0(SDKBase):
                     :awaiting:      if the result of the API call is still awaiting returns True
                     :unknown:       if reqid is unknown, returns False (or raises UnknownReqIdError)
         """
+        r = url = None
         try:
             url = self.join("result", str(reqid))
             r = self.req(url)
diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 6818cf3..3d6d209 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -145,6 +145,7 @@ class SDKBase:
             retval = self.req(url, params, method)
             #print("\n\n[call] req returned", retval)
             return retval
+        r = None
         try:
             r = self.req(url, params, method)
             rj = r.json()
-- 
2.43.0


From de60b922fb246475dc3d23c39ea2389b39ad2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 31/55] fix: token container can restore tokens from ticker or
 address

---
 carbon/sdk/sdktoken.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index cfdd06a..2c64b57 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -100,16 +100,15 @@ class TokenContainer():
         """creates a TokenContainer from a csv string"""
         return cls.fromlist([t.split(",") for t in csv.strip().splitlines()], raiseonerror)
     
-    @classmethod
-    def restore(cls, ticker_or_addr_or_tkn, raiseonerror=None):
+    def restore(self, ticker_or_addr_or_tkn, raiseonerror=None):
         """converts a ticker or address to an SDKToken from the TokenContainer (SDKToken not touched)"""
         if isinstance(ticker_or_addr_or_tkn, SDKToken):
             return ticker_or_addr_or_tkn
         try:
-            tkn = cls.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
+            tkn = self.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
         except:
             try:
-                tkn = cls.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
+                tkn = self.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
             except:
                 if raiseonerror:
                     raise ValueError(f"ticker or address {ticker_or_addr_or_tkn} not found in container")
-- 
2.43.0


From f64590ab24191c46ee17d5c400ffc8f952ae86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 32/55] fix: strategy keeps its parameter checks, seed amounts
 and rescaled y_int

---
 carbon/helpers/strategym.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 76d207f..5ce4ff8 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -64,6 +64,13 @@ class strategy():
         if pm_provided and yi_provided:
             raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
         
+        # the ==0 is important: do not touch None!
+        # (None means: to be filled in later)
+        if self.amt_rsk == 0: self.amt_rsk = self.MIN_SEED_AMT
+        if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
+        if self.rsk is None: self.rsk = "RSK"
+        if self.csh is None: self.csh = "CSH"
+
     MIN_SEED_AMT = 1e-10
 
     def rescale_strat(self, newspot=100, oldspot=100, force=False):
@@ -100,7 +107,7 @@ class strategy():
             # that do set yint should probably just set "do not rescale"
             # we may come up with a better solution once we have marginal
             # prices sorted in strategy creation
-            y_int_sell  = self.y_int_sell,  
+            y_int_sell  = self.y_int_sell,
             y_int_buy = self.y_int_buy*fctr if not self.y_int_buy is None else None,   # CSH number
 
             rsk  = self.rsk,
@@ -132,14 +139,6 @@ class strategy():
             pass
         return newobj
 
-    def __post_init__(self):
-        # the ==0 is important: do not touch None!
-        # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_risk = self.MIN_SEED_AMT
-        if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
-        if self.rsk is None: self.rsk = "RSK"
-        if self.csh is None: self.csh = "CSH"
-
     @classmethod
     def from_dct(cls, dct, raiseonerror=True):
         """
-- 
2.43.0


From 5734b79298a9b43f5775165040c185a4ff5b186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 33/55] fix: shared variables round and test like their values

---
 carbon/helpers/sharedvar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 5d13848..46dbeac 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -85,7 +85,10 @@ class SharedVar:
     def __abs__(self):
         return self._wrap(abs(self._value))
 
-    def __round__(self, n):
+    def __bool__(self):
+        return bool(self._value)
+
+    def __round__(self, n=None):
         return self._wrap(round(self._value,n))
 
     def __floor__(self):
-- 
2.43.0


From 4f0f150a1b965b6d813592189ece0c3203af53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 34/55] fix: order of results does not depend on the iteration
 order of sets

---
 carbon/carbon_order_ui.py             | 2 +-
 carbon/simulators/carbon_simulator.py | 2 +-
 carbon/tools/cpc.py                   | 4 ++--
 carbon/tools/optimizer.py             | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index e5da78f..ee8a6d6 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1123,7 +1123,7 @@ class CarbonOrderUI:
         NOTE: apparently bidask is the wrong way round, but this is the way how currently
         the simulator expects it so we need to be careful changing it
         """
-        pairs = set(r.pair.slashpair for r in curves.values())
+        pairs = sorted(set(r.pair.slashpair for r in curves.values()))
         result = {
             pair:{ 
                 "ALL": [v for v in curves.values() if v.pair.slashpair == pair],
diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 18d0b7a..bad03a2 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -1226,7 +1226,7 @@ class CarbonSimulatorUI:
         if format == self.ASDF:
             return df
         dct = df.to_dict(orient='dict')["y"]  # yields {("ETHUSDC", ETH): ...}
-        pairs = set(k[0] for k in dct)  # yields {"ETHUSDC", "ETHDAI", ...}
+        pairs = sorted(set(k[0] for k in dct))  # yields {"ETHUSDC", "ETHDAI", ...}
         result = {p: {k[1]: v for k, v in dct.items() if k[0] == p} for p in
                   pairs}  # yields {"ETHUSDC": {"ETH": ..., "USDC": ...}, ...}
         if format == self.ASDICT:
diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 0d31e5e..04c276e 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1541,7 +1541,7 @@ class CPCContainer():
                         x = [i for i,c in enumerate(curves) if c.tknb == tkn], 
                         y = [i for i,c in enumerate(curves) if c.tknq == tkn],
             ))
-            for tkn in self.tkns()
+            for tkn in sorted(self.tkns())
         )
         r = {r[0]: r[1] for r in r if len(r[1])>0} 
         return r
@@ -1591,7 +1591,7 @@ class CPCContainer():
         
         assert curves is None, "restricting curves not implemented yet"
 
-        for pair in pairs:
+        for pair in sorted(pairs):
             #pairp = Pair.prettify_pair(pair)
             curves = self.bypair(pair, directed=True, ascc=False)
             #print("plot", pair, [c.pair for c in curves])
diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b171771..b8558fe 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -548,7 +548,7 @@ class CPCArbOptimizer(OptimizerBase):
             """dict representation including zero-valued tokens (unless short)"""
             if short:
                 return {**self.data}
-            return {k: self.get(k) for k in self.tokens}
+            return {k: self.get(k) for k in self.tokens_l}
         
         def items(self, *, short=False):
             return self.asdict(short=short).items()
@@ -1122,7 +1122,7 @@ class CPCArbOptimizer(OptimizerBase):
         assert len(curves_t)>0, "no curves found"
         alltokens_s = self.curve_container.tokens()
         assert targettkn in alltokens_s, f"targettkn {targettkn} not in {alltokens_s}"
-        tokens_t = tuple(t for t in alltokens_s if t!=targettkn)
+        tokens_t = tuple(t for t in sorted(alltokens_s) if t!=targettkn)
         tokens_ix = {t: i for i, t in enumerate(tokens_t)}
         if not P("pstart") is None:
             pstart = P("pstart")
@@ -1150,7 +1150,7 @@ class CPCArbOptimizer(OptimizerBase):
             df = pd.DataFrame(price_estimates_t, index=tokens_t, columns=[targettkn])
             df.index.name = "tknb"
             return df
-        pairs = self.curve_container.pairs(standardize=False)
+        pairs = sorted(self.curve_container.pairs(standardize=False))
         pairs_t = tuple(tuple(p.split("/")) for p in pairs)
         get = lambda p, ix: p[ix] if ix is not None else 1
         
-- 
2.43.0


From a97f6514717b23a1d47f74744329e8b9002d370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 35/55] fix: the API key does not appear in errors raised by
 the data client

---
 carbon/helpers/cryptocompare.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 51467b2..5dfcb32 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -40,7 +40,7 @@ class CryptoCompare():
             raiseonerror = self.RAISEONERROR
         self.raiseonerror = raiseonerror  
         if not (isinstance(apikey, str) or apikey is None or apikey is True):
-            raise ValueError("apikey must be a string, None, or True", apikey)  
+            raise ValueError("apikey must be a string, None, or True", type(apikey))  
         if apikey is None:
             if apikeyname is None:
                 apikeyname = self.APIKEYNAME
@@ -117,7 +117,11 @@ class CryptoCompare():
             paramsq["api_key"] = self.apikey
         
         if method == self.QUERY_GET:
-            r = _requests.get(url, params=paramsq)
+            try:
+                r = _requests.get(url, params=paramsq)
+            except _requests.RequestException as e:
+                # not chained: the text of the original error contains the API key
+                raise type(e)(f"API query failed [{url}]") from None
         elif method == self.QUERY_POST:
             raise ValueError("Method QUERY_POST has not been implemented yet.")
         else:
@@ -125,7 +129,7 @@ class CryptoCompare():
         
         if not r:
             if self.raiseonerror:
-                raise RuntimeError(f"API query not successfull (status={r.status})", r)
+                raise RuntimeError(f"API query not successfull (status={r.status_code})", r)
             else:
                 return None
         return r
-- 
2.43.0


From 86f3744dc4234858bd499e999a257885f8dce200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 36/55] fix: requests go to the client's own url and signing
 keeps its flag

---
 carbon/sdk/carbonsdk0.py | 2 +-
 carbon/sdk/sdkbase.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 0605456..42131d8 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -576,7 +576,7 @@ class CarbonSDK0(SDKBase):
         :sign:      whether to sign the transaction (True=sign)
         :returns:   the transaction receipt
         """
-        r = self.req(n("signsubmittx"), params={"tx": tx, sign: bool(sign)})
+        r = self.req(n("signsubmittx"), params={"tx": tx, "sign": bool(sign)})
         return self._checkresult(r)
     
     ########################################
diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 3d6d209..db7cde8 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -99,7 +99,7 @@ class SDKBase:
         if method == self.GET and params:
             raise self.CarbonSDKValueError("Must not provide params for GET request", params, method)
 
-        url = self.join(self.URL, path)
+        url = self.join(self.url, path)
         if self.verbose:
             print(f"[req0] method={method}, url={url}, params={params}")
         if method == self.GET:
-- 
2.43.0


From 9e34b5571cf65df56eedde3a0991d39f141ba8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 37/55] fix: client calls pass on what the caller asked for and
 leave the caller's objects alone

---
 carbon/sdk/carbonsdk.py  | 10 +++++-----
 carbon/sdk/carbonsdk0.py | 22 ++++++++++++----------
 carbon/sdk/sdkbase.py    |  1 +
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index ed30932..3ee8f49 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -575,7 +575,7 @@ class CarbonSDK(CarbonSDK0):
             AMMsells  = targetTokenO.T,
             bidAsk    = "ask" if pair.has_basetoken(AMMsells) else "bid",
             pair      = pair, 
-            inverted  = pair.has_quotetoken(targetTokenO.T), 
+            inverted  = pair.has_basetoken(targetTokenO.T), 
         )
 
     def mGetRateLiquidityDepthByPair(self, rate, pair, AMMsells):
@@ -691,8 +691,8 @@ class CarbonSDK(CarbonSDK0):
             raise ValueError("sellRangeStart <= buyRangeStart", sellRangeStart, buyRangeStart)
         
         data = self.createBuySellStrategy(
-            baseToken = T.ETH.a, 
-            quoteToken = T.USDC.a, 
+            baseToken = T[pair.tknb].a, 
+            quoteToken = T[pair.tknq].a, 
             buyPriceLow = buyRangeEnd, 
             buyPriceHigh = buyRangeStart, 
             buyBudget = buyAmountTknQ,
@@ -729,8 +729,8 @@ class CarbonSDK(CarbonSDK0):
         sourceTokenO = T[sourceToken]
         targetTokenO = T[targetToken]
         tradeByTargetAmount = (tkn == targetToken)
-        if not Tokens.containsall({sourceToken, targetToken}):
-            raise ValueError("not all token addresses are availabe", pair, Tokens)
+        if not T.containsall({sourceTokenO.T, targetTokenO.T}):
+            raise ValueError("not all token addresses are availabe", pair, T)
         data = self.getTradeData(
             sourceToken=sourceTokenO.a, 
             targetToken=targetTokenO.a, 
diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 42131d8..d590226 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -150,9 +150,9 @@ class CarbonSDK0(SDKBase):
         T = self.Tokens
         r = self.call(n("pairs"), params={}, sync=True)
         pairs_raw = self._checkresult(r)
-        if Tokens is None:
+        if T is None:
             return pairs_raw
-        pairs = [ [Tokens(p[0]), Tokens(p[1])] for p in pairs_raw]
+        pairs = [ [T(p[0]), T(p[1])] for p in pairs_raw]
         if not inclstr:
             return pairs
         pairs_s = ", ".join([f"{p[0].T}/{p[1].T}" for p in pairs])
@@ -321,7 +321,7 @@ class CarbonSDK0(SDKBase):
         """
         if deadline is None: deadline = self.MAXDEADLINE
         if maxInput is None: maxInput = self.MAXMAXINPUT
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         if tradeActions is None: tradeActions = []
         tradeActions = [self.int2strd(d) for d in tradeActions]
@@ -350,7 +350,7 @@ class CarbonSDK0(SDKBase):
 
         if deadline is None: deadline = self.MAXDEADLINE
         if minReturn is None: minReturn = 1
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         if tradeActions is None: tradeActions = []
         tradeActions = [self.int2strd(d) for d in tradeActions]
@@ -429,7 +429,7 @@ class CarbonSDK0(SDKBase):
         :sync:              whether to call sync or async
         :returns:           unsigned transaction that can be used to create the strategy
         """
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         r = self.call(n("createBuySellStrategy"), params={
                 "baseToken": str(baseToken), 
@@ -505,7 +505,9 @@ class CarbonSDK0(SDKBase):
         :returns:               ??? TODO
         """
         assert isinstance(update, self.StrategyUpdate), "update must be of type StrategyUpdate"     
-        if overrides is None: overrides = dict()
+        if buyMarginalPrice is None: buyMarginalPrice = update.buyMarginalPrice
+        if sellMarginalPrice is None: sellMarginalPrice = update.sellMarginalPrice
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         return self.call(n("updateStrategy"), params={
                 "strategyId": str(strategyId), 
@@ -513,8 +515,8 @@ class CarbonSDK0(SDKBase):
                 "baseToken": str(baseToken), 
                 "quoteToken": str(quoteToken), 
                 "update": update.asdict(omitMarginalPrices=True), 
-                "buyMarginalPrice": update.buyMarginalPriceStr,
-                "sellMarginalPrice": update.sellMarginalPriceStr, 
+                "buyMarginalPrice": str(buyMarginalPrice) if not buyMarginalPrice is None else None,
+                "sellMarginalPrice": str(sellMarginalPrice) if not sellMarginalPrice is None else None, 
                 "overrides": overrides
             }, sync=sync)
     
@@ -526,7 +528,7 @@ class CarbonSDK0(SDKBase):
         :overrides:         overrides to apply to the transaction
         :returns:           ??? TODO
         """
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         r = self.call(n("deleteStrategy"), params={
                 "strategyId": str(strategyId), 
@@ -592,7 +594,7 @@ class CarbonSDK0(SDKBase):
         try:
             rj = r.json()
         except:
-            raise RuntimeError(f"ERROR: can't convert to json {r.body}")
+            raise RuntimeError(f"ERROR: can't convert to json {r.text}")
         try:
             return rj["data"]
         except:
diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index db7cde8..5ba4a04 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -139,6 +139,7 @@ class SDKBase:
         :sync:      whether to call sync or async
         """
         #print("\n\n[call]", ep, params, method, sync)
+        if sync is None: sync = self.syncdefault
         url = self.join(self.callapi0(sync), ep)
         if sync: 
             #print("\n\n[call] calling req", ep, params, method, sync)
-- 
2.43.0


From fbb9611d149b4743efa92e96a02c43f0fef3529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 38/55] fix: SDK token conversions, hashing and order encoding

---
 carbon/sdk/carbonsdk.py |  7 ++++---
 carbon/sdk/sdktoken.py  | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 3ee8f49..f2e51bd 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -294,7 +294,8 @@ class EncodedOrder():
                 if p_marg >= p_start_hi:
                     z = y
                 else:
-                    z = y * (p_start_hi - p_end_lo) // (p_marg - p_start_hi)
+                    # y/z = (sqrt(p_marg) - sqrt(p_end)) / (sqrt(p_start) - sqrt(p_end))
+                    z = y * (sqrt(p_start_hi) - sqrt(p_end_lo)) / (sqrt(p_marg) - sqrt(p_end_lo))
         return cls(
             y=int(y), 
             z=int(z), 
@@ -316,8 +317,8 @@ class EncodedOrder():
         return cls(
             y=int(y), 
             z=int(z), 
-            A=cls.encodeFloat(A), 
-            B=cls.encodeFloat(B),
+            A=cls.encodeFloat(int(A * cls.ONE)), 
+            B=cls.encodeFloat(int(B * cls.ONE)),
             token=str(token)
         )
         
diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 2c64b57..9636f15 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -50,13 +50,19 @@ class SDKToken():
         """alias for self.decimals"""
         return self.decimals
 
+    DEFAULT_DECIMALS = 18
+    @property
+    def _factor(self):
+        """number of wei per token"""
+        return 10**(self.DEFAULT_DECIMALS if self.decimals is None else self.decimals)
+
     def w2t(self, wei):
         """converts wei to token"""
-        return wei / 10**self.decimals
+        return wei / self._factor
     
     def t2w(self, tokenmt):
         """converts tokenmt to wei"""
-        return int(tokenmt * 10**self.decimals)
+        return int(tokenmt * self._factor)
     
     @property
     def isnul(self):
@@ -68,6 +74,9 @@ class SDKToken():
     
     def __iter__(self):
         return iter((self.token, self.address, self.decimals, self.name))
+    
+    def __hash__(self):
+        return int(self.address, 16)
 
 NULTKN = SDKToken("NULTKN", "0x0000000000000000000000000000000000000000") 
 
@@ -180,6 +189,8 @@ class TokenContainer():
         return self.byticker(token)
     
     def __getattr__(self, token):
+        if token.startswith("_"):
+            raise AttributeError(token)
         return self.byticker(token)
     
     def __len__(self):
@@ -191,9 +202,6 @@ class TokenContainer():
     def __repr__(self):
         return f"{self.__class__.__name__}({self._all})"
     
-    def __hash__(self):
-        return int(self.address, 16)
-    
     def __str__(self):
         return str(tuple(self._byticker.keys()))
     
-- 
2.43.0


From 7e424d97077ed6a29221b019c96e892e65b198e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 39/55] fix: number of binary digits of large integers in
 CarbonFloatInt64

---
 carbon/helpers/floatint.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/floatint.py b/carbon/helpers/floatint.py
index 543f8f9..6edad99 100644
--- a/carbon/helpers/floatint.py
+++ b/carbon/helpers/floatint.py
@@ -5,7 +5,6 @@ __VERSION__ = "1.0"
 __DATE__ = "10/Feb/2023"
 
 from dataclasses import dataclass as _dataclass, asdict as _asdict
-from math import log2 as _log2, ceil as _ceil
 
 @_dataclass
 class CarbonFloatInt64():
@@ -46,8 +45,8 @@ class CarbonFloatInt64():
     
     @staticmethod
     def bindig(num):
-        """binary digits for num >0 [_ceil(_log2(rawint+1))]"""
-        return _ceil(_log2(num+1))
+        """number of binary digits of the integer num >= 0"""
+        return num.bit_length()
 
     @classmethod
     def from_int(cls, rawint):
-- 
2.43.0


From 4506015c5325b093b0fb002374932dedc82ca7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 40/55] fix: parameter sets keep the defaults first set and
 those of the set they replicate

---
 carbon/tools/params.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 330e392..122a506 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -59,8 +59,10 @@ class Params():
             result = cls()
         elif isinstance(dct, cls):
             result = cls(**dct._params)
-            if not dct._defaults is None and not defaults is None:
-                raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
+            if dct._defaults:
+                if not defaults is None:
+                    raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
+                defaults = dct._defaults
         else:
             result = cls(**dct)
 
@@ -97,9 +99,8 @@ class Params():
         """
         if self._defaults is None:
             self._defaults = dict()
-        else:
-            for k, v in kwargs.items():
-                self._defaults[k] = v
+        for k, v in kwargs.items():
+            self._defaults[k] = v
         return self
     
     @property
-- 
2.43.0


From 96da384408bd0997085cf2e3d702bf6d9e93b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 41/55] fix: reading orders from a file of an unknown type is
 refused

---
 carbon/routers/base_router.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/routers/base_router.py b/carbon/routers/base_router.py
index ccf615b..8c00217 100644
--- a/carbon/routers/base_router.py
+++ b/carbon/routers/base_router.py
@@ -343,6 +343,8 @@ class BaseRouter:
                 c = Order(**curve)
                 curves.append(c)
             nix_format = {}
+        else:
+            raise ValueError(f"unknown file type {file_type!r}, must be 'json' or 'csv'")
         if format_type == "nix":
             return curves, nix_format
         else:
-- 
2.43.0


From 165d391ecc6218bc81e6b1df2980d132e271539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 42/55] fix: price_estimate refuses unknown result types

---
 carbon/tools/cpc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 04c276e..24349c1 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1445,6 +1445,8 @@ class CPCContainer():
         """
         assert (tknq is not None and tknb is not None) or pair is not None, f"must specify tknq, tknb or pair [{tknq}, {tknb}, {pair}]"
         assert not (not tknb is None and not pair is None), f"must not specify both tknq, tknb and pair [{tknq}, {tknb}, {pair}]"
+        if not result in (None, self.PE_PAIR, self.PE_CURVES, self.PE_DATA):
+            raise ValueError(f"unknown result type {result}")
         if not pair is None:
             tknb, tknq = pair.split("/")
         if tknq == tknb:
-- 
2.43.0


From 43baaa443c466aa8cfc5f463bf9cf0549b81ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 43/55] fix: margp_optimizer refuses unknown result types

---
 carbon/tools/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b8558fe..680fe3b 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1110,6 +1110,8 @@ class CPCArbOptimizer(OptimizerBase):
         only specifies the target token, and where all other constraints are zero; if sfc is 
         a string then this is interpreted as the target token
         """
+        if not result in (None, self.MO_DEBUG, self.MO_PSTART, self.MO_DTKNFROMPF, self.MO_MINIMAL, self.MO_FULL):
+            raise ValueError(f"unknown result type {result}")
         if isinstance(sfc, str):
             sfc = self.arb(targettkn=sfc)
         assert sfc.is_arbsfc(), "only pure arbitrage SFC are supported at the moment"
-- 
2.43.0


From cd904775eb669eb397bc123e108e5a5f1bb417b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 44/55] fix: trade instructions refuse unknown data frame
 formats

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 680fe3b..bf9a475 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1569,7 +1569,7 @@ class CPCArbOptimizer(OptimizerBase):
                 return tuple(trade_instructions)
             elif ti_format == cls.TIF_DICTS:
                 return cls.to_dicts(trade_instructions)
-            elif ti_format[:2] == "df":
+            elif ti_format in (cls.TIF_DFP, cls.TIF_DFRAW, cls.TIF_DFAGGR):
                 trade_instructions = tuple(trade_instructions)
                 if len(trade_instructions) == 0:
                     return pd.DataFrame()
-- 
2.43.0


From 4298dbd7622e170bb77fcc1736ee38b3bf2affaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 45/55] fix: goalseek answers a result object in every case and
 keeps a zero at its lower end

---
 carbon/tools/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index bf9a475..bd75d1d 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -292,8 +292,8 @@ class OptimizerBase:
         while (b - a) > cls.GOALSEEKEPS:
             c = (a + b) / 2
             if func(c) == 0:
-                return c
-            elif func(a) * func(c) < 0:
+                return cls.SimpleResult(result=c, method="findminmax_nr")
+            elif func(a) * func(c) <= 0:
                 b = c
             else:
                 a = c
-- 
2.43.0


From 77df19f35a939b7d8ce8ec852fe73b246dcfe7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 46/55] fix: margp_optimizer accepts convergence in its last
 iteration

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index bd75d1d..797ffeb 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1310,7 +1310,7 @@ class CPCArbOptimizer(OptimizerBase):
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
-        if i == maxiter-1:
+        if not criterium < eps:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
                 result =  None,
-- 
2.43.0


From d23059bf020237fc4414ef9fad120fa1fdd71446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 47/55] fix: status of optimizer results is a property as in
 the base class

---
 carbon/tools/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 797ffeb..1457cbd 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -859,6 +859,7 @@ class CPCArbOptimizer(OptimizerBase):
         def detailed_error(self):
             return self.errormsg
         
+        @property
         def status(self):
             return "error" if self.is_error else "converged"
 
@@ -1373,6 +1374,7 @@ class CPCArbOptimizer(OptimizerBase):
         def detailed_error(self):
             return self.errormsg
         
+        @property
         def status(self):
             return "error" if self.is_error else "converged"
         
-- 
2.43.0


From c019d4e8bda911855d01ec7b21a8f904e3664561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 48/55] fix: simple_optimizer answers an error result if its
 search fails

---
 carbon/tools/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 1457cbd..36acf70 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -986,7 +986,8 @@ class CPCArbOptimizer(OptimizerBase):
         if not result == self.SO_TARGETTKN:
             p_avg = np.mean([c.p for c in curves_t])
             p_optimal = self.findmax(dxdyfromp_valx_f, p_avg)
-            opt_result = dxdyfromp_valx_f(float(p_optimal))
+            if not p_optimal.is_error:
+                opt_result = dxdyfromp_valx_f(float(p_optimal))
             if result == self.SO_PMAX:
                 return p_optimal
             elif result != self.SO_GLOBALMAX:
-- 
2.43.0


From 30667b05f5bc40c55715448221b7fc273db18d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 49/55] fix: nofees_optimizer constrains the tokens an
 arbitrage constraint does not list

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 36acf70..18e438f 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -753,7 +753,7 @@ class CPCArbOptimizer(OptimizerBase):
         
             
         # self-financing constraints
-        for tkn, tknvalue in sfc.items():
+        for tkn, tknvalue in {**{t: 0 for t in sorted(self.curve_container.tokens())}, **sfc.asdict()}.items():
             if not isinstance(tknvalue, str):
                 constraints += [
                     cp.sum([dy[i] for i in tt[tkn].y])+cp.sum([dx[i] for i in tt[tkn].x]) == tknvalue*c0.scale(tkn)
-- 
2.43.0


From 086e5e7f093d9c6ce02be6ed0da795f105fbbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 50/55] fix: nofees_optimizer refuses unknown solvers

---
 carbon/tools/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 18e438f..f761456 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -775,6 +775,8 @@ class CPCArbOptimizer(OptimizerBase):
 
         # run the optimization
         problem = cp.Problem(objective, constraints)
+        if not P("solver") is None and not P("solver") in self.SOLVERS:
+            raise ValueError(f"unknown solver {P('solver')}, must be one of {list(self.SOLVERS)}")
         solver = self.SOLVERS.get(P("solver"), cp.CVXOPT)
         if not P("nosolve"):
             sp = {k[2:]:v for k,v in params.items() if k[:2]=="s_"}
-- 
2.43.0


From 80abf1f7c3361fa0fbb82fd0527c0c660a434258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 51/55] fix: the marginal price of a single order is converted
 to the order's numeraire

The boundaries of the range were converted from the numeraire of the pair to
the one of the token being sold, the marginal price was passed as quoted.
---
 carbon/simulators/carbon_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index bad03a2..262c457 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -381,6 +381,7 @@ class CarbonSimulatorUI:
             # convert the prices from the pair numeraire to the curve numeraire
             p_start_c = carbon_pair.convert_price(p_start, tkn)
             p_end_c = carbon_pair.convert_price(p_end, tkn)
+            p_marginal_c = carbon_pair.convert_price(p_marginal, tkn)
 
             # ugly hack, but somehow we need to switch lo and hi to have the
             # boundary closer to the money always first
@@ -392,7 +393,7 @@ class CarbonSimulatorUI:
                 carbon_pair = carbon_pair, 
                 id1 = id1, 
                 id2 = id2,
-                p_marginal = p_marginal,
+                p_marginal = p_marginal_c,
                 y_int = y_int,
             )
 
-- 
2.43.0


From 04d39558b858eeb2c9c807ffe0f2f2835efdc675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 52/55] fix: bytknb and bytknq select by the base and the quote
 token

The base token of a curve is tknx and its quote token tkny; the aliases were the
other way round.
---
 carbon/tools/cpc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 24349c1..9e502f9 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1361,10 +1361,10 @@ class CPCContainer():
         return self.bypairs(ascc=True)
     
     def bytknx(self, tknx, *, asgenerator=None, ascc=None):
-        """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
+        """returns all curves by base token tknx (tknb) (as tuple, generator or CC object)"""
         result = (c for c in self if c.tknx==tknx)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
-    bytknq = bytknx
+    bytknb = bytknx
     
     def bytknxs(self, tknxs=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
@@ -1378,10 +1378,10 @@ class CPCContainer():
     bytknxs = bytknxs
     
     def bytkny(self, tkny, *, asgenerator=None, ascc=None):
-        """returns all curves by base token tkny (tknb) (as tuple, generator or CC object)"""
+        """returns all curves by quote token tkny (tknq) (as tuple, generator or CC object)"""
         result = (c for c in self if c.tkny==tkny)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
-    bytknb = bytkny
+    bytknq = bytkny
 
     def bytknys(self, tknys=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tkny (tknb) (as tuple, generator or CC object)"""
-- 
2.43.0


From 7578a65798207f5d6259c572c96b23d59dc52b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 53/55] fix: AlphaRouter.match_by_src defaults threshold_orders
 like match_by_target

---
 carbon/routers/alpha_router.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index c138f85..99878a9 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -331,6 +331,9 @@ class AlphaRouter(BaseRouter):
              to return the optimal distribution for the full inputAmount
              evaluated within the threshold number of orders.
         """
+        if threshold_orders == None:
+            threshold_orders = 10
+
         # (step 1.)
         hypothetical_output_amts = {i: self.amt_by_src(dx=x, subject=i) for i in self.indexes}
 
-- 
2.43.0


From 69c0e2fa159ab0e61f543335c5d058aa5859645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 54/55] fix: FastRouter labels its first route with the match
 method too

---
 carbon/routers/fast_router.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/routers/fast_router.py b/carbon/routers/fast_router.py
index 87b0d4b..cca7e9a 100644
--- a/carbon/routers/fast_router.py
+++ b/carbon/routers/fast_router.py
@@ -204,6 +204,7 @@ class FastRouter(BaseRouter):
 
         # Format the output
         match_method = "by_src" if not is_by_target else "by_target"
+        actions[0].match_method = match_method
         actions[0].total_output = actions[0].output
         actions[0].total_input = actions[0].input
         for i in range(1, len(actions)):
-- 
2.43.0


From e3624d4befd6b4b2e19555b565c524db821cf410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:03 +0000
Subject: [PATCH 55/55] fix: consolidated edge table matches forward and
 reverse edges by pair

---
 carbon/tools/arbgraphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 6d2f7f2..4c0f0db 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1830,7 +1830,9 @@ class ArbGraph(_DCBase):
                 ).reset_index()
             dff = df[df["is_reverse"]==False]
             dft = df[df["is_reverse"]==True]
-            df = pd.concat([dff.reset_index(drop=True), dft[["n"]].rename(columns={"n":"n_rev"}).reset_index(drop=True)], axis=1)
+            dft = dft[["pair", "n", "price"]].rename(columns={"n":"n_rev", "price":"price_rev"})
+            df = dff.merge(dft, on="pair", how="outer")
+            df["price"] = df["price"].fillna(df["price_rev"])
             df = df[["pair", "n", "n_rev", "price"]]
         
             if not resetindex:
-- 
2.43.0

