From 4255a56275620a3ed6ab6265fc006d8e9855602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 01/70] fix: same-net polygons in between shield overlap
 capacitance

---
 klayout_pex/rcx25/c/overlap_extractor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 4c1cec5..701f401 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -110,6 +110,13 @@ class OverlapExtractor:
                 for polygon_above in polygons_above:
                     net_top = polygon_above.property('net')
 
+                    top_region = kdb.Region(polygon_above)
+
+                    overlap_area = top_region.__and__(bottom_region) - shielded_region
+
+                    # NOTE: any polygon shields what lies above, whatever its net
+                    shielded_region.insert(polygon_above)
+
                     if net_top == net_bot:
                         continue
 
@@ -124,10 +131,6 @@ class OverlapExtractor:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
                         return
 
-                    top_region = kdb.Region(polygon_above)
-
-                    overlap_area = top_region.__and__(bottom_region) - shielded_region
-
                     overlap_area_um2 = overlap_area.area() * self.dbu ** 2
                     cap_femto = overlap_area_um2 * overlap_cap_spec.capacitance / 1000.0
                     info(f"(Overlap): {top_layer_name}({net_top})-{bot_layer_name}({net_bot}): "
@@ -151,5 +154,3 @@ class OverlapExtractor:
                                                    bottom_polygon=polygon,
                                                    top_polygon=polygon_above,
                                                    overlap_area=overlap_area)
-
-                    shielded_region.insert(polygon_above)
-- 
2.43.0


From dcd5c46ef383f7c20fbd2b555652c7826ec2c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 02/70] fix: layer pair without overlap coefficient must not
 drop the overlaps of other layers

---
 klayout_pex/rcx25/c/overlap_extractor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 701f401..45310d9 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -125,11 +125,11 @@ class OverlapExtractor:
                     top_overlap_specs = self.tech_info.overlap_cap_by_layer_names.get(top_layer_name, None)
                     if not top_overlap_specs:
                         warning(f"No overlap cap specified for layer top={top_layer_name}")
-                        return
+                        continue
                     overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)
                     if not overlap_cap_spec:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
-                        return
+                        continue
 
                     overlap_area_um2 = overlap_area.area() * self.dbu ** 2
                     cap_femto = overlap_area_um2 * overlap_cap_spec.capacitance / 1000.0
-- 
2.43.0


From c78f95eaf15eed23a2385322fc2cdd3127adec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 03/70] fix: 2.5D extraction must not crash on conductor layers
 without parasitics (MIM plates)

---
 .../rcx25/c/sidewall_and_fringe_extractor.py  | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index 89d238c..00f51d9 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -265,7 +265,10 @@ class SidewallAndFringeExtractor:
             if net1 == net2:
                 return
 
-            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name[layer_name]
+            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name.get(layer_name, None)
+            if not sidewall_cap_spec:
+                warning(f"No sidewall cap specified for layer {layer_name}")
+                return
 
             # TODO!
 
@@ -377,14 +380,19 @@ class SidewallAndFringeExtractor:
             ]
 
             # NOTE: overlap_cap_by_layer_names is top/bot (dict is not symmetric)
-            overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[inside_layer_name].get(outside_layer_name,
-                                                                                                None)
+            overlap_caps = self.tech_info.overlap_cap_by_layer_names
+            overlap_cap_spec = overlap_caps.get(inside_layer_name, {}).get(outside_layer_name, None)
             if not overlap_cap_spec:
-                overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[outside_layer_name][inside_layer_name]
+                overlap_cap_spec = overlap_caps.get(outside_layer_name, {}).get(inside_layer_name, None)
+
+            sideoverlap_caps = self.tech_info.side_overlap_cap_by_layer_names
+            sideoverlap_cap_spec = sideoverlap_caps.get(inside_layer_name, {}).get(outside_layer_name, None)
 
-            substrate_cap_spec = self.tech_info.substrate_cap_by_layer_name[inside_layer_name]
-            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names[inside_layer_name][
-                outside_layer_name]
+            # NOTE: not every conductor has parasitics specified, e.g. the MIM capacitor plates
+            if not overlap_cap_spec or not sideoverlap_cap_spec:
+                warning(f"No fringe cap specified for layers inside={inside_layer_name}, "
+                        f"outside={outside_layer_name}")
+                return
 
             polygons_by_net: Dict[NetName, List[kdb.PolygonWithProperties]] = defaultdict(list)
 
-- 
2.43.0


From 4f8d39bcd6eec86e8b0205bcb89d94ba3a03983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 04/70] fix: sky130A label layers of met1..met5 must not take
 the LVS names of the pin layers

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 45b1ef1..a14f23f 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -130,11 +130,11 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
 
     addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");
     addComputedLayer(tech, METAL,   KLBL, "li_label",     67, 5,  "li1.label",  "li1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met1_pin_con", 68, 5,  "met1.label", "met1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met2_pin_con", 69, 5,  "met2.label", "met2 label");
-    addComputedLayer(tech, METAL,   KLBL, "met3_pin_con", 70, 5,  "met3.label", "met3 label");
-    addComputedLayer(tech, METAL,   KLBL, "met4_pin_con", 71, 5,  "met4.label", "met4 label");
-    addComputedLayer(tech, METAL,   KLBL, "met5_pin_con", 72, 5,  "met5.label", "met5 label");
+    addComputedLayer(tech, METAL,   KLBL, "met1_label",   68, 5,  "met1.label", "met1 label");
+    addComputedLayer(tech, METAL,   KLBL, "met2_label",   69, 5,  "met2.label", "met2 label");
+    addComputedLayer(tech, METAL,   KLBL, "met3_label",   70, 5,  "met3.label", "met3 label");
+    addComputedLayer(tech, METAL,   KLBL, "met4_label",   71, 5,  "met4.label", "met4 label");
+    addComputedLayer(tech, METAL,   KLBL, "met5_label",   72, 5,  "met5.label", "met5 label");
 }
 
 void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
-- 
2.43.0


From 95ad631d06fdb954eb774bd8be9299d83e917fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 05/70] fix: sky130A via1_con refers to the layer via, so that
 its resistance is found

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index a14f23f..6832b67 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -94,7 +94,7 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
     addComputedLayer(tech, CONT,    KREG, "licon_psd_con",  66, 4402,  "licon1", "Computed layer for contact from psdm to li1");
     addComputedLayer(tech, CONT,    KREG, "licon_poly_con", 66, 4403,  "licon1", "Computed layer for contact from poly to li1");
     addComputedLayer(tech, VIA,     KREG, "mcon_con",  67, 44,  "mcon",       "Computed layer for contact between li1 and met1");
-    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via1",       "Computed layer for contact between met1 and met2");
+    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via",        "Computed layer for contact between met1 and met2");
     addComputedLayer(tech, VIA,     KREG, "via2_con",  69, 44,  "via2",       "Computed layer for contact between met2 and met3");
     addComputedLayer(tech, VIA,     KREG, "via3_ncap", 70, 144, "via3",       "Computed layer for via3 (no MIM cap)");
     addComputedLayer(tech, VIA,     KREG, "via4_ncap", 71, 144, "via4",       "Computed layer for via4 (no MIM cap)");
-- 
2.43.0


From d7365870df463b494cb1d940c2ed1608bed0aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 06/70] fix: 2.5D SPICE netlist states capacitances in farad
 instead of femtofarad

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..2a33d4c 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # fF -> F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From 1cae44b794ba046818f49752788ded5a8bbed9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 07/70] fix: 2.5D netlist expansion connects to an existing net
 VSUBS instead of creating a second one

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 2a33d4c..e29adc1 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -81,7 +81,7 @@ class RCX25NetlistExpander:
         expanded_netlist.add(res)
 
         fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        vsubs_net = top_circuit.net_by_name("VSUBS") or top_circuit.create_net("VSUBS")
 
         summary = extraction_results.summarize()
         cap_items = sorted(summary.capacitances.items())
-- 
2.43.0


From c856ab9bddb6d7cd9acff5a2d6ad0b376b99dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 08/70] fix: internal nets of different subcircuit instances
 must not collapse into one net

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..54d48ee 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -90,6 +90,10 @@ class KLayoutExtractionContext:
                            top_cell: str,
                            tech: TechInfo,
                            blackbox_devices: bool) -> KLayoutExtractionContext:
+        # NOTE: the shapes of all nets are flattened into the top cell,
+        #       so nets inside of subcircuits need names that are unique per instance
+        lvsdb.netlist().flatten()
+
         dbu = lvsdb.internal_layout().dbu
         annotated_layout = kdb.Layout()
         annotated_layout.dbu = dbu
-- 
2.43.0


From 52147ccb5dfc2a8609d4ed464a018d018dcd0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 09/70] fix: shapes and terminals of unnamed nets take part in
 R and FasterCap extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 54d48ee..8923292 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -274,7 +274,7 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -401,7 +401,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..5f75538 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -267,7 +267,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From 32678727df743a22822e02e4bc6dff67c4a16ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 10/70] fix: device terminals without a net must not crash the
 preparation of R extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 8923292..504137d 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -379,10 +379,11 @@ class KLayoutExtractionContext:
             for td in d_kly.device_class().terminal_definitions():
                 n: kdb.Net = d_kly.net_for_terminal(td.id())
                 if n is None:
-                    warning(f"Skipping terminal {td.name} of device {d.name} ({d.device_class}) "
+                    warning(f"Skipping terminal {td.name} of device {d.device_name} ({d.device_class_name}) "
                             f"is not connected to any net")
                     terminal = d.terminals.add()
-                    terminal.id = td.id()
+                    terminal.device_id = d.id
+                    terminal.terminal_id = td.id()
                     terminal.name = td.name
                     terminal.net_name = ''  # TODO
                     continue
-- 
2.43.0


From ebb257db1fbb60de68ffb8fdc8013a476b01268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 11/70] fix: R extraction with blackboxed devices must not
 crash on their terminal layers

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 504137d..5b68505 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -405,7 +405,9 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
-                        lyr_idx = self.layer_index_map[idx]
+                        lyr_idx = self.layer_index_map.get(idx, None)
+                        if lyr_idx is None:
+                            continue  # e.g. layers of blackboxed devices
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
 
                         region_by_layer = terminal.region_by_layer.add()
-- 
2.43.0


From f748657cf0851ef1d6d8a47f0b58741608262ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 12/70] fix: internal resistor nodes of different nets must not
 share one name

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 5f75538..1529ca5 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -365,7 +365,8 @@ class RExtractor:
                         r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                         r_node.location.box.net = r_node.net_name
                     case _:
-                        r_node.net_name = r_node.node_name
+                        # NOTE: node names are only unique within the network of a net
+                        r_node.net_name = f"{result_network.net_name}.{r_node.node_name}"
                         r_node.location.box.net = r_node.net_name
 
                 node_by_node_id[r_node.node_id] = r_node
-- 
2.43.0


From 46b2d87760f633f200c8436ad72063c5e155c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 13/70] fix: resistances between the same two nets combine in
 parallel in the extraction summary

---
 klayout_pex/rcx25/extraction_results.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_results.py b/klayout_pex/rcx25/extraction_results.py
index c3caad0..f8190e9 100644
--- a/klayout_pex/rcx25/extraction_results.py
+++ b/klayout_pex/rcx25/extraction_results.py
@@ -134,6 +134,19 @@ class NetCoupleKey:
             return NetCoupleKey(self.net2, self.net1)
 
 
+def add_parallel_resistance(table: Dict[NetCoupleKey, float], key: NetCoupleKey, resistance: float):
+    """
+    Resistors between the same two nets are connected in parallel, so their conductances add up
+    """
+    other = table.get(key, None)
+    if other is None:
+        table[key] = resistance
+    elif other == 0 or resistance == 0:
+        table[key] = 0.0
+    else:
+        table[key] = 1.0 / (1.0 / other + 1.0 / resistance)
+
+
 @dataclass
 class ExtractionSummary:
     capacitances: Dict[NetCoupleKey, float]
@@ -142,12 +155,12 @@ class ExtractionSummary:
     @classmethod
     def merged(cls, summaries: List[ExtractionSummary]) -> ExtractionSummary:
         merged_capacitances = defaultdict(float)
-        merged_resistances = defaultdict(float)
+        merged_resistances: Dict[NetCoupleKey, float] = {}
         for s in summaries:
             for couple_key, cap in s.capacitances.items():
                 merged_capacitances[couple_key.normed()] += cap
             for couple_key, res in s.resistances.items():
-                merged_resistances[couple_key.normed()] += res
+                add_parallel_resistance(merged_resistances, couple_key.normed(), res)
         return ExtractionSummary(capacitances=merged_capacitances,
                                  resistances=merged_resistances)
 
@@ -193,7 +206,7 @@ class CellExtractionResults:
         sideoverlap_summary = ExtractionSummary(capacitances=normalized_sideoverlap_table,
                                                 resistances={})
 
-        normalized_resistance_table: Dict[NetCoupleKey, float] = defaultdict(float)
+        normalized_resistance_table: Dict[NetCoupleKey, float] = {}
 
         for network in self.r_extraction_result.networks:
             node_by_id: Dict[int, r_network_pb2.RNode] = {n.node_id: n for n in network.nodes}
@@ -202,7 +215,7 @@ class CellExtractionResults:
                 node_b = node_by_id[element.node_b.node_id]
                 resistance = element.resistance
                 normalized_key = NetCoupleKey(node_a.net_name, node_b.net_name).normed()
-                normalized_resistance_table[normalized_key] += resistance
+                add_parallel_resistance(normalized_resistance_table, normalized_key, resistance)
                 
         resistance_summary = ExtractionSummary(capacitances={},
                                                resistances=normalized_resistance_table)
-- 
2.43.0


From 2764b792c23b1c2fb5d09fbf5914950aed6a2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 14/70] fix: whiteboxed capacitors must not be removed while
 iterating over the devices (crash)

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index e29adc1..5870402 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,7 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # NOTE: devices get removed while iterating
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0


From 042c530224502f2388828606565d9a126927a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 15/70] fix: is_skinny_tri must return the index of the corner,
 not whether it differs from 0

---
 klayout_pex/rcx25/r/resistor_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/r/resistor_network.py b/klayout_pex/rcx25/r/resistor_network.py
index 5371083..b912bba 100644
--- a/klayout_pex/rcx25/r/resistor_network.py
+++ b/klayout_pex/rcx25/r/resistor_network.py
@@ -67,7 +67,7 @@ class ResistorNetwork:
         self.node_names = {}
 
     @staticmethod
-    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[bool]:
+    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[int]:
         for i in range(0, 3):
             pm1 = pts[i]
             p0 = pts[(i + 1) % 3]
@@ -78,7 +78,7 @@ class ResistorNetwork:
             l1 = (pm1 - p1).sq_length()
 
             if l0 + l1 < lm1 * (1.0 - 1e-10):
-                return i != 0
+                return i
 
         return None
 
-- 
2.43.0


From 359ebf2a2346ec832e8039f720116eec6a4e34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:19 +0000
Subject: [PATCH 16/70] fix: the separation check of the FasterCap model must
 not empty the only state region

---
 klayout_pex/fastercap/fastercap_model_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..8b5ffe1 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -459,7 +459,8 @@ class FasterCapModelGenerator:
         debug(f"All conductor region out: {all_cout}")
 
         # check whether states are separated
-        a = reduce(lambda x, y: x+y, self.state.values())
+        # NOTE: the initial value makes sure that "a" is always a copy, also if there is only one state
+        a = reduce(lambda x, y: x+y, self.state.values(), kdb.Region())
         for k, s in self.state.items():
             r: kdb.Region = s - a
             if not r.is_empty():
-- 
2.43.0


From dfc885a96a022daf9e4b6f64ca2b96bd0445957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 17/70] fix: a dielectric that was covered up to a height must
 not get surfaces where it stays covered above

---
 .../fastercap/fastercap_model_generator.py     | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 8b5ffe1..cfff038 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -413,7 +413,6 @@ class FasterCapModelGenerator:
                 # compute merged events
                 if mk not in self.current:
                     self.current[mk] = []
-                current_before = self.current[mk][0].dup() if len(self.current[mk]) >= 1 else kdb.Region()
                 lin, lout, current = self._merge_events(pyra=self.current[mk],
                                                         lin=self.layers_in.get(mk, None),
                                                         lout=self.layers_out.get(mk, None))
@@ -425,19 +424,14 @@ class FasterCapModelGenerator:
                 if mk not in self.state:
                     self.state[mk] = kdb.Region()
 
-                # legalize in and out events
-                lin_org = lin.dup()
-                lout_org = lout.dup()
-                lout &= self.state[mk]
-                lin -= all
-                lout += current & all_in
-                lin += current_before & all_out
-                lin -= lout_org
-                lout -= lin_org
+                # legalize in and out events:
+                # the legalized state is what is not covered by a state of higher priority
+                state = current - all
+                lin = state - self.state[mk]
+                lout = self.state[mk] - state
 
                 # tracks the legalized horizontal cuts
-                self.state[mk] += lin
-                self.state[mk] -= lout
+                self.state[mk] = state
 
                 din[mk] = lin
                 dout[mk] = lout
-- 
2.43.0


From 1f71527dd744bb4df93dbfc9e2573c09eb886235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:36 +0000
Subject: [PATCH 18/70] fix: vertical FasterCap panels of angled edges must
 span the edge

---
 klayout_pex/fastercap/fastercap_model_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index cfff038..91869ab 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -603,8 +603,9 @@ class FasterCapModelGenerator:
         de = kdb.DVector(edge.d().x / el, edge.d().y / el)
         ne = kdb.DVector(edge.d().y / el, -edge.d().x / el)
         p0 = ne * ne.sprod(kdb.DPoint(edge.p1) - kdb.DPoint()) + kdb.DPoint()
-        x1 = (edge.p1 - p0).sprod(de)
-        x2 = (edge.p2 - p0).sprod(de)
+        # NOTE: mixing integer and float types rounds the operands, which is wrong for angled edges
+        x1 = math.floor((kdb.DPoint(edge.p1) - p0).sprod(de) + 0.5)
+        x2 = math.floor((kdb.DPoint(edge.p2) - p0).sprod(de) + 0.5)
 
         key = VKey(kk, p0, de)
         surface = kdb.Box(x1,
-- 
2.43.0


From a3a6a44f8826a5ea959d40c435bb27caee87f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 19/70] fix: FastCap matrix rows with padded names or indices
 must not shift the columns

---
 klayout_pex/fastcap/fastcap_runner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..33a0aa5 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -129,11 +129,12 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
-                    cells = [cell.strip() for cell in line.split(' ')]
-                    if cells[1] != str(i):
-                        warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
+                    # NOTE: FastCap pads names and indices with blanks, so don't expect exactly one blank in between
+                    cells = line.split()
+                    row_index = idx - 1 - i  # NOTE: rlines is reversed
+                    if cells[1] != str(row_index):
+                        warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
-                    cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
                     rows.append(row)
-- 
2.43.0


From a96cf481e8e6be664debdd7de97abae8e4c35bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 20/70] fix: the unit of the FastCap capacitance matrix must
 not be ignored

---
 klayout_pex/fastcap/fastcap_runner.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 33a0aa5..c0255e2 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -103,6 +103,18 @@ def run_fastcap(exe_path: str,
                         f"see log file: {log_path}")
 
 
+# FastCap chooses the unit according to the magnitude of the values
+FASTCAP_UNITS: Dict[str, float] = {
+    'farads': 1.0,
+    'millifarads': 1e-3,
+    'microfarads': 1e-6,
+    'nanofarads': 1e-9,
+    'picofarads': 1e-12,
+    'femtofarads': 1e-15,
+    'attofarads': 1e-18,
+}
+
+
 # CAPACITANCE MATRIX, picofarads
 #                     1          2          3          4
 # $1%GROUP2 1       7850      -7277      -2115      54.97
@@ -121,6 +133,9 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if not section_m:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
+                if unit_str not in FASTCAP_UNITS:
+                    raise Exception(f"Unknown capacitor unit '{unit_str}'")
+                unit = FASTCAP_UNITS[unit_str]
 
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
@@ -136,7 +151,7 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                         warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
                     conductor_names.append(cells[0])
-                    row = [float(cell)/1e6 for cell in cells[1:]]
+                    row = [float(cell)*unit/1e6 for cell in cells[1:]]
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From 85f9e15ace121d39c8af77b7ec32d5d955506574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 21/70] fix: an incomplete capacitance matrix must be refused
 instead of misread

---
 klayout_pex/fastcap/fastcap_runner.py     | 6 +++++-
 klayout_pex/fastercap/fastercap_runner.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index c0255e2..2952622 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -137,9 +137,11 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                     raise Exception(f"Unknown capacitor unit '{unit_str}'")
                 unit = FASTCAP_UNITS[unit_str]
 
-                dimension_line = rlines[idx-1].strip()
+                dimension_line = rlines[idx-1].strip() if idx >= 1 else ''
                 dimensions = dimension_line.split()  # remove whitespace
                 dim = len(dimensions)
+                if dim == 0 or dim > idx-1:
+                    raise Exception(f"Incomplete capacitance matrix in FastCap log file {log_path}")
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
@@ -147,6 +149,8 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                     # NOTE: FastCap pads names and indices with blanks, so don't expect exactly one blank in between
                     cells = line.split()
                     row_index = idx - 1 - i  # NOTE: rlines is reversed
+                    if len(cells) != dim + 2:
+                        raise Exception(f"Incomplete capacitance matrix row in FastCap log file {log_path}: {line}")
                     if cells[1] != str(row_index):
                         warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index f91640f..7a1fdaa 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -110,16 +110,20 @@ def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
         # multiple iterations possible, find the last matrix
         for idx, line in enumerate(rlines):
             if line.strip() == "Capacitance matrix is:":
-                m = re.match(r'^Dimension (\d+) x (\d+)$', rlines[idx-1])
+                m = re.match(r'^Dimension (\d+) x (\d+)$', rlines[idx-1]) if idx >= 1 else None
                 if not m:
                     raise Exception(f"Could not parse capacitor matrix dimensions")
                 dim = int(m.group(1))
+                if dim > idx-1:
+                    raise Exception(f"Incomplete capacitance matrix in FasterCap log file {log_path}")
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
                     cells = [cell.strip() for cell in line.split(' ')]
                     cells = list(filter(lambda c: len(c) >= 1, cells))
+                    if len(cells) != dim + 1:
+                        raise Exception(f"Incomplete capacitance matrix row in FasterCap log file {log_path}: {line}")
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
                     rows.append(row)
-- 
2.43.0


From 765d166b6b00901e679a098eba7a137bc25a14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 22/70] fix: whiteboxed devices must not be removed while
 iterating over the devices (FasterCap netlist expansion)

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..d4fdfa1 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,7 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # NOTE: devices get removed while iterating
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
-- 
2.43.0


From 53f5529bc5e488015a7a56522b3679ba16e63dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 23/70] fix: FasterCap netlist expansion connects to an
 existing net VSUBS instead of creating a second one

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index d4fdfa1..5b6fc38 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -57,7 +57,7 @@ class NetlistExpander:
         expanded_netlist.add(cap)
 
         fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        vsubs_net = top_circuit.net_by_name("VSUBS") or top_circuit.create_net("VSUBS")
         nets: List[kdb.Net] = []
 
         # build table: name -> net
-- 
2.43.0


From d1d8ecee8195ba0c932159b5ff68dc884ac1b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 24/70] fix: FastCap conductor names must not crash the netlist
 expansion

---
 klayout_pex/klayout/netlist_expander.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 5b6fc38..703842e 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -64,10 +64,12 @@ class NetlistExpander:
         name2net: Dict[str, kdb.Net] = {n.expanded_name(): n for n in top_circuit.each_net()}
 
         # find nets for the matrix axes
-        pattern = re.compile(r'^g\d+_(.*)$')
+        #   FasterCap: "g1_VDD"
+        #   FastCap: "VDD%GROUP2"
+        patterns = (re.compile(r'^(.*)%GROUP\d+$'), re.compile(r'^g\d+_(.*)$'))
         for idx, nn in enumerate(cap_matrix.conductor_names):
-            m = pattern.match(nn)
-            nn = m.group(1)
+            candidates = [m.group(1) for m in (p.match(nn) for p in patterns) if m]
+            nn = next((c for c in candidates if c in name2net), candidates[-1] if candidates else nn)
             if nn not in name2net:
                 raise Exception(f"No net found with name {nn}, net names are: {list(name2net.keys())}")
             n = name2net[nn]
-- 
2.43.0


From fdd2c54e5554aff08ecf98ab0bd272aeb4044812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 25/70] fix: unnamed nets must not be left blank in the
 FasterCap CSV netlist

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From 7476d1cc700e7deb19a294966c4be12213c22de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:25 +0000
Subject: [PATCH 26/70] fix: netlist reduction must not combine devices of
 different classes (KLayout's combine_devices on a copied netlist)

---
 klayout_pex/klayout/netlist_reducer.py | 41 +++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_reducer.py b/klayout_pex/klayout/netlist_reducer.py
index d4f0dd2..895b64a 100644
--- a/klayout_pex/klayout/netlist_reducer.py
+++ b/klayout_pex/klayout/netlist_reducer.py
@@ -31,12 +31,51 @@ from ..log import (
 
 
 class NetlistReducer:
+    @staticmethod
+    def _combine_parallel_devices(circuit: kdb.Circuit):
+        net_index_by_terminal: Dict[Tuple[int, int], int] = {}
+        for idx, net in enumerate(circuit.each_net()):
+            for t in net.each_terminal():
+                net_index_by_terminal[(t.device().id(), t.terminal_id())] = idx
+
+        first_devices: Dict[Tuple, kdb.Device] = {}
+
+        for d in list(circuit.each_device()):  # NOTE: devices get removed while iterating
+            dc = d.device_class()
+            is_cap = isinstance(dc, kdb.DeviceClassCapacitor)
+            if not is_cap and not isinstance(dc, kdb.DeviceClassResistor):
+                continue
+
+            # NOTE: terminals A and B are interchangeable, but not the bulk terminal (if any)
+            a, b, *bulk = [net_index_by_terminal.get((d.id(), t.id()), None)
+                           for t in dc.terminal_definitions()]
+            if a is None or b is None or None in bulk:
+                continue
+            key = (dc.name, frozenset((a, b)), tuple(bulk))
+
+            first = first_devices.setdefault(key, d)
+            if first is d:
+                continue
+
+            if is_cap:
+                first.set_parameter('C', first.parameter('C') + d.parameter('C'))
+            else:
+                r1, r2 = first.parameter('R'), d.parameter('R')
+                first.set_parameter('R', r1 * r2 / (r1 + r2) if r1 != 0 and r2 != 0 else 0)
+                first.set_parameter('W', first.parameter('W') + d.parameter('W'))
+            for p in ('A', 'P'):
+                first.set_parameter(p, first.parameter(p) + d.parameter(p))
+            circuit.remove_device(d)
+
     @staticmethod
     def reduce(netlist: kdb.Netlist,
                top_cell_name: str,
                cap_threshold: float = 0.05e-15) -> kdb.Netlist:
         reduced_netlist: kdb.Netlist = netlist.dup()
-        reduced_netlist.combine_devices()  # merge C/R
+        # NOTE: Netlist.combine_devices() can't be used here, because KLayout (as of 0.30) leaves the IDs of the
+        #       device classes of a duplicated netlist uninitialized, i.e. it combines devices of different classes
+        for circuit in reduced_netlist.each_circuit():
+            NetlistReducer._combine_parallel_devices(circuit)  # merge C/R
 
         top_circuit: kdb.Circuit = reduced_netlist.circuit_by_name(top_cell_name)
 
-- 
2.43.0


From 9d81732fa5f7d9277c039b5146f701937450a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 27/70] fix: holes of polygons must survive the protobuf
 conversion (R extraction of rings)

---
 klayout_pex/klayout/shapes_pb2_converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/shapes_pb2_converter.py b/klayout_pex/klayout/shapes_pb2_converter.py
index c69c81b..883ffaf 100644
--- a/klayout_pex/klayout/shapes_pb2_converter.py
+++ b/klayout_pex/klayout/shapes_pb2_converter.py
@@ -68,7 +68,9 @@ class ShapesConverter:
         net_name = polygon_kly.property('net')
         if net_name:
             polygon_pb.net = net_name
-        for p_kly in polygon_kly.each_point_hull():
+        # NOTE: the protobuf polygon has no holes, so connect them with the hull
+        hull_kly = polygon_kly.resolved_holes() if polygon_kly.holes() >= 1 else polygon_kly
+        for p_kly in hull_kly.each_point_hull():
             self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())
 
     def klayout_region_to_pb(self,
-- 
2.43.0


From e4da06b7070506bb369b6d8672575c65b65bb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 28/70] fix: choice patterns must treat names without regard to
 case everywhere, and refuse unknown subpatterns

---
 klayout_pex/util/multiple_choice.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index be8c74c..6e040d9 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -47,8 +47,11 @@ class MultipleChoicePattern:
         components = [c.lower().strip() for c in components]
         self.has_all = 'all' in components
         self.has_none = 'none' in components
-        self.included = [c[1:] for c in components if c.startswith('+')]
-        self.excluded = [c[1:] for c in components if c.startswith('-')]
+        self.included = [c[1:].strip() for c in components if c.startswith('+')]
+        self.excluded = [c[1:].strip() for c in components if c.startswith('-')]
+        for c in components:
+            if c not in ('', 'all', 'none') and c[0] not in '+-':
+                raise ValueError(f"Multiple choice pattern has unknown subpattern '{c}'")
         if self.has_none and self.has_all:
             raise ValueError("Multiple choice pattern can't have both subpatterns all and none")
         if self.has_none and len(self.excluded) >= 1:
@@ -57,13 +60,10 @@ class MultipleChoicePattern:
             raise ValueError("Multiple choice pattern based on all can only have exclusive (-) subpatterns")
 
     def filter(self, choices: List[str]) -> List[str]:
-        if self.has_all:
-            return [c for c in choices if c not in self.excluded]
-        return [c for c in choices if c in self.included]
+        return [c for c in choices if self.is_included(c)]
 
     def is_included(self, choice: str) -> bool:
-        if self.has_none:
-            return choice in self.included
+        choice = choice.lower()  # NOTE: patterns are case-insensitive
         if self.has_all:
             return choice not in self.excluded
-        return False
+        return choice in self.included
-- 
2.43.0


From f0588f65f86d9f01ac297ae0b755abda46955ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 29/70] fix: netlistsvg export must not lose subcircuit calls
 and pins that share a name, nor crash on unconnected ones

---
 klayout_pex/netlistsvg/netlist_json.py | 30 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..2072736 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -39,7 +39,11 @@ class NetlistJSONWriter:
         self.next_id = 0
         self.id_for_net: Dict[str, int] = {}
 
-    def _get_or_create_id(self, net: kdb.Net) -> int:
+    def _get_or_create_id(self, net: Optional[kdb.Net]) -> int:
+        if net is None:  # unconnected
+            i = self.next_id
+            self.next_id += 1
+            return i
         net_name = net.expanded_name() or net.name
         i = self.id_for_net.get(net_name, None)
         if i is None:
@@ -48,11 +52,20 @@ class NetlistJSONWriter:
             self.id_for_net[net_name] = i
         return i
 
+    @staticmethod
+    def _unique_key(d: Dict[str, Any], key: str) -> str:
+        unique_key = key
+        n = 1
+        while unique_key in d:
+            n += 1
+            unique_key = f"{key}_{n}"
+        return unique_key
+
     def dict_for_ports(self, circuit: kdb.Circuit) -> Dict[str, Any]:
         port_dict = {}
         for pin in circuit.each_pin():
             pin: kdb.Pin
-            name = pin.name()
+            name = self._unique_key(port_dict, pin.expanded_name())
             net = circuit.net_for_pin(pin)
             bit = self._get_or_create_id(net)
             port_dict[name] = {
@@ -81,12 +94,12 @@ class NetlistJSONWriter:
             for pin in subcircuit.each_pin():
                 pin: kdb.Pin
                 net = sc.net_for_pin(pin.id())
-                pin_name = net.expanded_name()
+                pin_name = pin.expanded_name() if net is None else net.expanded_name()
                 pin_text = f"{pin.id()}={pin_name}"
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            cells_dict[self._unique_key(cells_dict, f"{subcircuit.name}{subcircuit.cell_index}")] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
@@ -107,7 +120,7 @@ class NetlistJSONWriter:
                 net2: kdb.Net = d.net_for_terminal('B')
                 cap = params['C']
                 cap_femto = round(cap * 1e15, 3)
-                cells_dict[f"C{dn}"] = {
+                cells_dict[self._unique_key(cells_dict, f"C{dn}")] = {
                     'type': 'c_v',
                     'connections': {
                         'A': [self._get_or_create_id(net1)],
@@ -121,7 +134,7 @@ class NetlistJSONWriter:
                 net1: kdb.Net = d.net_for_terminal('A')
                 net2: kdb.Net = d.net_for_terminal('B')
                 ohm = params['R']
-                cells_dict[f"R{dn}"] = {
+                cells_dict[self._unique_key(cells_dict, f"R{dn}")] = {
                     'type': 'r_v',
                     'connections': {
                         'A': [self._get_or_create_id(net1)],
@@ -141,7 +154,7 @@ class NetlistJSONWriter:
                 continue
             device_name = f"gnd{'' if gnd_counter == 0 else gnd_counter}"
             gnd_counter += 1
-            cells_dict[device_name] = {
+            cells_dict[self._unique_key(cells_dict, device_name)] = {
                 'type': 'gnd',
                 'port_directions': {
                     'A': 'input'
@@ -159,6 +172,9 @@ class NetlistJSONWriter:
     def netlist_json_dict(self,
                           netlist: kdb.Netlist,
                           top_circuit: kdb.Circuit) -> Dict[str, Any]:
+        self.next_id = 0
+        self.id_for_net = {}
+
         json_dict = {
             'modules': {
                 top_circuit.name: {
-- 
2.43.0


From 3c324ee428f0a55e08c7c4529398b42d76d2d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 30/70] fix: netlist svg honours --cell and accepts --log_level

---
 klayout_pex/netlist/netlist_cli.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..ae0ec06 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -82,7 +82,7 @@ class NetlistCLI:
         group_special.add_argument("--help", "-h", action='help', help="show this help message and exit")
         group_special.add_argument("--version", "-v", action='version', version=f'{PROGRAM_NAME} {__version__}')
         group_special.add_argument("--log_level", dest='log_level',
-                                   default=LogLevel.DEFAULT, type=LogLevel, choices=list(LogLevel),
+                                   default='subprocess',
                                    help=render_enum_help(topic='log_level', enum_cls=LogLevel))
 
         subparsers = main_parser.add_subparsers(dest="command", help="Sub-commands help")
@@ -119,6 +119,13 @@ class NetlistCLI:
         print("")
         found_errors = False
 
+        try:
+            args.log_level = LogLevel[args.log_level.upper()]
+        except KeyError:
+            error(f"Requested log level {args.log_level.lower()} does not exist, "
+                  f"{render_enum_help(topic='log_level', enum_cls=LogLevel, print_default=False)}")
+            found_errors = True
+
         match args.command:
             case None:
                 error(f"Command argument missing")
@@ -157,6 +164,11 @@ class NetlistCLI:
             case 0:
                 error(f"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!")
                 sys.exit(1)
+            case _ if args.cell_name is not None:
+                top_circuit = netlist.circuit_by_name(args.cell_name)
+                if top_circuit is None:
+                    error(f"Could not find cell {args.cell_name} in SPICE netlist {args.input_netlist_path}")
+                    sys.exit(2)
             case 1:
                 top_circuit = top_circuits[0]
             case _:
-- 
2.43.0


From 0702ce446a91b2c384f7ebf821aab34b770262da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:59 +0000
Subject: [PATCH 31/70] fix: report repair must understand quotes and escapes
 in category names

---
 klayout_pex/klayout/repair_rdb.py | 62 +++++++++++++++----------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..7facb4c 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -24,6 +24,7 @@
 import gzip
 import io
 import os.path
+import re
 import shutil
 import sys
 from typing import *
@@ -46,45 +47,37 @@ from ..log import (
 
 
 def parse_category_path(category_path: str) -> List[str]:
-    within_escaped = False
-    within_backslash = False
-    current_word = ''
+    """
+    Splits a category path into its components.
+    KLayout quotes components that are no plain words, within quotes there are C-like escapes,
+    and characters beyond ASCII are given as octal UTF-8 bytes.
+    """
+    word_pattern = re.compile(r"'((?:[^'\\]|\\.)*)'|((?:[^.'\\]|\\.)*)", re.DOTALL)
+    escape_pattern = re.compile(rb'\\([0-7]{3}|.)', re.DOTALL)
+
+    def unescape(m: re.Match) -> bytes:
+        c: bytes = m.group(1)
+        if len(c) == 3:
+            return bytes([int(c, 8) & 0xff])
+        return {b'n': b'\n', b't': b'\t', b'r': b'\r'}.get(c, c)
+
     path_list = []
-    for c in category_path:
-        match c:
-            case '.':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                elif within_escaped:
-                    current_word += c
-                else:
-                    path_list.append(current_word)
-                    current_word = ''
-            case '\\':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_backslash = True
-            case '\'':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_escaped = not within_escaped
-            case _:
-                current_word += c
-    if len(current_word) >= 1:
-        path_list.append(current_word)
-    return path_list
+    pos = 0
+    while True:
+        m = word_pattern.match(category_path, pos)
+        word = m.group(1) if m.group(1) is not None else m.group(2)
+        path_list.append(escape_pattern.sub(unescape, word.encode('utf-8')).decode('utf-8', errors='replace'))
+        pos = m.end() + 1
+        if m.end() >= len(category_path):
+            return path_list
+
 
 def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
     et = ET.parse(xml_file)
     root = et.getroot()
 
     categories: Set[str] = set(
-        [e.text for e in root.findall('./items/item/category')]
+        [e.text for e in root.findall('./items/item/category') if e.text]
     )
     category_paths = [parse_category_path(c) for c in categories]
     category_paths.sort()
@@ -93,7 +86,10 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            if elemcats is None:
+                elemcats = ET.SubElement(elem, "categories")
+            # NOTE: names can contain quotes, so they can't be part of an XPath expression
+            subelem = next((e for e in elemcats.findall("./category") if (e.findtext("./name") or '') == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
-- 
2.43.0


From c2b34f11d87c031c75477f4f96889fccfd3e4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:22 +0000
Subject: [PATCH 32/70] fix: boolean options must accept 1 and 0

---
 klayout_pex/util/argparse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/util/argparse_helpers.py b/klayout_pex/util/argparse_helpers.py
index 20082be..a26f9b5 100644
--- a/klayout_pex/util/argparse_helpers.py
+++ b/klayout_pex/util/argparse_helpers.py
@@ -61,9 +61,9 @@ def true_or_false(arg) -> bool:
         return arg
 
     match str(arg).lower():
-        case 'yes' | 'true' | 't' | 'y' | 1:
+        case 'yes' | 'true' | 't' | 'y' | '1':
             return True
-        case 'no' | 'false' | 'f' | 'n' | 0:
+        case 'no' | 'false' | 'f' | 'n' | '0':
             return False
         case _:
             raise argparse.ArgumentTypeError('Boolean value expected.')
-- 
2.43.0


From 81f9b1b8958dd2cdcbcf06a64e8cffd919d82bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:22 +0000
Subject: [PATCH 33/70] fix: a malformed --diel argument must be reported
 instead of breaking the logging

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..695a9f1 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -463,7 +463,7 @@ class KpexCLI:
             pattern_string: str = args.dielectric_filter
             args.dielectric_filter = MultipleChoicePattern(pattern=pattern_string)
         except ValueError as e:
-            error("Failed to parse --diel arg", e)
+            error(f"Failed to parse --diel arg: {e}")
             found_errors = True
 
         if args.cache_dir_path is None:
-- 
2.43.0


From b91f7897420c49169c2bab3caf13c46d1e7c5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:22 +0000
Subject: [PATCH 34/70] fix: PDKPATH without PDK in the environment must not
 crash the argument parser

---
 klayout_pex/kpex_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 695a9f1..db82250 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -252,9 +252,10 @@ class KpexCLI:
                                      help="FasterCap -pj Use Jacobi preconditioner (default is %(default)s)")
 
         PDKPATH = os.environ.get('PDKPATH', None)
+        PDK_NAME = os.environ.get('PDK', None)
         default_magicrc_path = \
-            None if PDKPATH is None \
-            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{os.environ['PDK']}.magicrc")
+            None if PDKPATH is None or PDK_NAME is None \
+            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{PDK_NAME}.magicrc")
         group_magic = main_parser.add_argument_group("MAGIC options")
         group_magic.add_argument('--magicrc', dest='magicrc_path', default=default_magicrc_path,
                                   help=f"Path to magicrc configuration file (default is '%(default)s')")
-- 
2.43.0


From 39dad7fb46754335ef5b711c028cfb893615d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:22 +0000
Subject: [PATCH 35/70] fix: an unknown --cell must be reported instead of
 crashing

---
 klayout_pex/kpex_cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index db82250..03e42ba 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -381,12 +381,12 @@ class KpexCLI:
                         if cell.name == args.effective_cell_name:
                             found_cell = cell
                             break
+
+                    is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
                     if not found_cell:
                         error(f"Could not find cell {args.cell_name} in GDS {args.gds_path}")
                         found_errors = True
-
-                    is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
-                    if is_only_top_cell:
+                    elif is_only_top_cell:
                         info(f"Found cell {args.cell_name} in GDS {args.gds_path} (only top cell)")
                     else:  # there are other cells => extract the top cell to a tmp layout
                         run_dir_id = f"{input_file_stem(args.gds_path)}__{args.effective_cell_name}"
-- 
2.43.0


From 1772725a273c3e34c4997f54c87edfa4f82755e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:48 +0000
Subject: [PATCH 36/70] fix: --cell must not be ignored with --lvsdb

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 03e42ba..b7ed6c1 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -423,6 +423,10 @@ class KpexCLI:
                 lvsdb.read(args.lvsdb_path)
                 top_cell: kdb.Cell = lvsdb.internal_top_cell()
                 args.effective_cell_name = top_cell.name
+                if args.cell_name and args.cell_name != args.effective_cell_name:
+                    error(f"Could not use cell {args.cell_name}, as LVSDB {args.lvsdb_path} "
+                          f"was created for cell {args.effective_cell_name}")
+                    found_errors = True
 
         if hasattr(args, 'effective_cell_name'):
             run_dir_id: str
-- 
2.43.0


From d3b7e4d2b1e38c876682ffed259541125989174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:48 +0000
Subject: [PATCH 37/70] fix: a missing magicrc must be reported instead of
 crashing

---
 klayout_pex/kpex_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index b7ed6c1..686caf5 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -360,6 +360,11 @@ class KpexCLI:
                 error(f"Neither GDS nor LVSDB was provided")
                 found_errors = True
 
+        if args.run_magic and (args.magicrc_path is None or not os.path.isfile(args.magicrc_path)):
+            error(f"Running PEX engine MAGIC requires a magicrc file (argument --magicrc), "
+                  f"can't read path {args.magicrc_path}")
+            found_errors = True
+
         # input mode: LVS or existing LVSDB?
         if args.gds_path:
             info(f"GDS input file passed, running in LVS mode")
-- 
2.43.0


From 0663d89c09ea5dd6dd10dee19c3c9264e9fcd317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:48 +0000
Subject: [PATCH 38/70] fix: FastCap2 runs must not change the working
 directory (crash with a relative --out_dir)

---
 klayout_pex/fastcap/fastcap_runner.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2952622..cd73d15 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -46,15 +46,16 @@ def run_fastcap(exe_path: str,
                 partitioning_depth: str = 'auto',
                 permittivity_factor: float = 1.0,
                 iterative_tolerance: float = 0.01):
-    work_dir = os.path.dirname(lst_file_path)
+    work_dir = os.path.dirname(os.path.abspath(lst_file_path))
 
-    # we have to chdir into the directory containing the lst file,
-    # so make all paths absolute, and the lst_file relative
-    log_path = os.path.abspath(log_path)
+    # FastCap2 has to run in the directory containing the lst file,
+    # so make the executable path absolute (if it is not searched for in PATH), and the lst_file relative
+    # NOTE: don't change the directory of this process, as other (relative) paths are still needed
+    if os.path.dirname(exe_path):
+        exe_path = os.path.abspath(exe_path)
     lst_file_path = os.path.basename(lst_file_path)
 
-    info(f"Chdir to {work_dir}")
-    os.chdir(work_dir)
+    info(f"Working directory {work_dir}")
     args = [
         exe_path,
         f"-o{expansion_order}",
@@ -78,6 +79,7 @@ def run_fastcap(exe_path: str,
     start = time.time()
 
     proc = subprocess.Popen(args,
+                            cwd=work_dir,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
-- 
2.43.0


From 44005ba9e89b311316d95a2240f5575802d8b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 39/70] fix: a failed LVS run must not use the LVSDB of an
 earlier run

---
 klayout_pex/klayout/lvs_runner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 6fc3980..79b7611 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -68,6 +68,10 @@ class LVSRunner:
             '-rd', 'purge_nets=false',
             '-rd', 'no_simplify=true', # IHP
         ]
+        # NOTE: never mistake the LVSDB of an earlier run for the result of this run
+        if os.path.exists(lvsdb_path):
+            os.remove(lvsdb_path)
+
         rule('Calling KLayout LVS script')
         subproc(' '.join(args))
         subproc(log_path)
@@ -92,7 +96,11 @@ class LVSRunner:
 
         rule()
 
-        if proc.returncode == 0:
+        # NOTE: the status code is also non-zero if the netlists don't match (e.g. with the dummy schematic)
+        if proc.returncode < 0 or not os.path.exists(lvsdb_path):
+            raise Exception(f"klayout LVS failed with status code {proc.returncode} after {'%.4g' % duration}s, "
+                            f"no LVSDB was created, see log file: {log_path}")
+        elif proc.returncode == 0:
             info(f"klayout LVS succeeded after {'%.4g' % duration}s")
         else:
             warning(f"klayout LVS failed with status code {proc.returncode} after {'%.4g' % duration}s, "
-- 
2.43.0


From 2a9915cded07b86e1391483ee97714565a43efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 40/70] fix: a cache hit must read the cached LVSDB, and only
 complete LVSDBs may be cached

---
 klayout_pex/kpex_cli.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 686caf5..6cf3f6a 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -827,7 +827,12 @@ class KpexCLI:
                     else:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
-                        lvs_needed = False
+                        try:
+                            lvsdb.read(lvsdb_cache_path)
+                            lvs_needed = False
+                        except RuntimeError as e:
+                            warning(f"Cached LVSDB can't be read, LVS is needed: {e}")
+                            lvsdb = kdb.LayoutVsSchematic()
 
                 if lvs_needed:
                     lvs_runner = LVSRunner()
@@ -838,13 +843,15 @@ class KpexCLI:
                                                log_path=lvs_log_path,
                                                lvsdb_path=lvsdb_path,
                                                verbose=args.klayout_lvs_verbose)
+                    lvsdb.read(lvsdb_path)
                     if args.cache_lvs:
                         cache_dir_path = os.path.dirname(lvsdb_cache_path)
                         if not os.path.exists(cache_dir_path):
                             os.makedirs(cache_dir_path, exist_ok=True)
-                        shutil.copy(lvsdb_path, lvsdb_cache_path)
-
-                lvsdb.read(lvsdb_path)
+                        # NOTE: never leave an incomplete file behind if interrupted
+                        tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
+                        shutil.copy(lvsdb_path, tmp_path)
+                        os.replace(tmp_path, lvsdb_cache_path)
         return lvsdb
 
     def main(self, argv: List[str]):
-- 
2.43.0


From 7765bb23d75b932008a0ffafa2ff004386396375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 41/70] fix: the LVS cache must not serve a LVSDB of other
 inputs (changed schematic, LVS script, or replaced layout)

---
 klayout_pex/kpex_cli.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 6cf3f6a..d51d800 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -27,6 +27,7 @@ import argparse
 from datetime import datetime
 from enum import StrEnum
 from functools import cached_property
+import hashlib
 import logging
 import os
 import os.path
@@ -798,9 +799,18 @@ class KpexCLI:
         set_log_level(args.log_level)
 
     @staticmethod
-    def modification_date(filename: str) -> datetime:
-        t = os.path.getmtime(filename)
-        return datetime.fromtimestamp(t)
+    def lvs_inputs_digest(args: argparse.Namespace) -> str:
+        """
+        Identifies the contents of the LVS inputs (layout, schematic, LVS script including its rule decks)
+
+        NOTE: modification dates are not sufficient, e.g. if a file is replaced with an older one
+        """
+        digest = hashlib.sha256()
+        lvs_scripts = Path(args.lvs_script_path).parent.rglob('*.lvs')
+        for path in (args.gds_path, args.effective_schematic_path, args.lvs_script_path, *sorted(lvs_scripts)):
+            with open(path, 'rb') as f:
+                digest.update(hashlib.sha256(f.read()).digest())
+        return digest.hexdigest()[:32]
 
     def create_lvsdb(self, args: argparse.Namespace) -> kdb.LayoutVsSchematic:
         lvsdb = kdb.LayoutVsSchematic()
@@ -813,16 +823,14 @@ class KpexCLI:
                 lvsdb_path = os.path.join(args.output_dir_path, f"{args.effective_cell_name}.lvsdb.gz")
                 lvsdb_cache_path = os.path.join(args.cache_dir_path, args.pdk,
                                                 os.path.splitroot(os.path.abspath(args.gds_path))[-1],
+                                                self.lvs_inputs_digest(args),
                                                 f"{args.effective_cell_name}.lvsdb.gz")
 
                 lvs_needed = True
 
                 if args.cache_lvs:
                     if not os.path.exists(lvsdb_cache_path):
-                        info(f"Cache miss: extracted LVSDB does not exist")
-                        subproc(lvsdb_cache_path)
-                    elif self.modification_date(lvsdb_cache_path) <= self.modification_date(args.gds_path):
-                        info(f"Cache miss: extracted LVSDB is older than the input GDS")
+                        info(f"Cache miss: extracted LVSDB does not exist (for these LVS inputs)")
                         subproc(lvsdb_cache_path)
                     else:
                         warning(f"Cache hit: Reusing cached LVSDB")
-- 
2.43.0


From efe893d7bb9a3213129fbd8d4c3fc31863cc0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:43 +0000
Subject: [PATCH 42/70] fix: output of external tools that is not UTF-8 must
 not crash the run

---
 klayout_pex/fastcap/fastcap_runner.py     | 1 +
 klayout_pex/fastercap/fastercap_runner.py | 1 +
 klayout_pex/klayout/lvs_runner.py         | 1 +
 klayout_pex/magic/magic_runner.py         | 1 +
 4 files changed, 4 insertions(+)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index cd73d15..d8da5dc 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -84,6 +84,7 @@ def run_fastcap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index 7a1fdaa..27a1d06 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -81,6 +81,7 @@ def run_fastercap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 79b7611..32b82bd 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -82,6 +82,7 @@ class LVSRunner:
                                 stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT,
                                 universal_newlines=True,
+                                errors='backslashreplace',
                                 text=True)
         with open(log_path, 'w', encoding='utf-8') as f:
             while True:
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 28eb703..8ba7aae 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -188,6 +188,7 @@ def run_magic(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
-- 
2.43.0


From 4d096d4ce841280d3ba6c162b9d4ec7bb454f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:43 +0000
Subject: [PATCH 43/70] fix: unreadable input files must be reported instead of
 crashing

---
 klayout_pex/kpex_cli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index d51d800..9b41574 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -375,7 +375,11 @@ class KpexCLI:
                 found_errors = True
             else:
                 args.layout = kdb.Layout()
-                args.layout.read(args.gds_path)
+                try:
+                    args.layout.read(args.gds_path)
+                except RuntimeError as e:
+                    error(f"Can't read GDS file (LVS input) at path {args.gds_path}: {e}")
+                    raise ArgumentValidationError("Argument validation failed")
 
                 top_cells = args.layout.top_cells()
 
@@ -426,7 +430,11 @@ class KpexCLI:
                 found_errors = True
             else:
                 lvsdb = kdb.LayoutVsSchematic()
-                lvsdb.read(args.lvsdb_path)
+                try:
+                    lvsdb.read(args.lvsdb_path)
+                except RuntimeError as e:
+                    error(f"Can't read KLayout LVSDB file at path {args.lvsdb_path}: {e}")
+                    raise ArgumentValidationError("Argument validation failed")
                 top_cell: kdb.Cell = lvsdb.internal_top_cell()
                 args.effective_cell_name = top_cell.name
                 if args.cell_name and args.cell_name != args.effective_cell_name:
-- 
2.43.0


From fe080a2652c593acfbaa6492cb269d621f7bcc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:43 +0000
Subject: [PATCH 44/70] fix: MAGIC runs must not report the files of an earlier
 run

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 9b41574..5f8d319 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -609,6 +609,10 @@ class KpexCLI:
 
         os.makedirs(magic_run_dir, exist_ok=True)
 
+        # NOTE: never mistake the files of an earlier run for results of this run
+        for stale_path in (Path(output_netlist_path), *Path(magic_run_dir).glob('*.ext')):
+            stale_path.unlink(missing_ok=True)
+
         prepare_magic_script(gds_path=args.effective_gds_path,
                              cell_name=args.effective_cell_name,
                              run_dir_path=magic_run_dir,
-- 
2.43.0


From 6f3f7ceaf46a053d529cf85ab3f94cd4113a7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:13 +0000
Subject: [PATCH 45/70] fix: the log file of a run must not receive the
 messages of later runs

---
 klayout_pex/kpex_cli.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 5f8d319..2db5bf9 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -765,7 +765,16 @@ class KpexCLI:
 
         return extraction_results
 
+    # log file handlers of the latest invocation (within this process)
+    _log_file_handlers: List[logging.Handler] = []
+
     def setup_logging(self, args: argparse.Namespace):
+        # NOTE: don't log into the files of an earlier invocation
+        while KpexCLI._log_file_handlers:
+            earlier_handler = KpexCLI._log_file_handlers.pop()
+            deregister_additional_handler(earlier_handler)
+            earlier_handler.close()
+
         def register_log_file_handler(log_path: str,
                                       formatter: Optional[logging.Formatter]) -> logging.Handler:
             handler = logging.FileHandler(log_path)
@@ -773,12 +782,14 @@ class KpexCLI:
             if formatter:
                 handler.setFormatter(formatter)
             register_additional_handler(handler)
+            KpexCLI._log_file_handlers.append(handler)
             return handler
 
         def reregister_log_file_handler(handler: logging.Handler,
                                         log_path: str,
                                         formatter: Optional[logging.Formatter]):
             deregister_additional_handler(handler)
+            KpexCLI._log_file_handlers.remove(handler)
             handler.flush()
             handler.close()
             os.makedirs(args.output_dir_path, exist_ok=True)
-- 
2.43.0


From eabc0a767b6c966153a36671cfbb1f519b513529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 46/70] fix: empty or truncated LVSDBs must be refused

---
 klayout_pex/kpex_cli.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 2db5bf9..a59e458 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -429,9 +429,8 @@ class KpexCLI:
                 error(f"Can't read KLayout LVSDB file at path {args.lvsdb_path}")
                 found_errors = True
             else:
-                lvsdb = kdb.LayoutVsSchematic()
                 try:
-                    lvsdb.read(args.lvsdb_path)
+                    lvsdb = KpexCLI.read_lvsdb(args.lvsdb_path)
                 except RuntimeError as e:
                     error(f"Can't read KLayout LVSDB file at path {args.lvsdb_path}: {e}")
                     raise ArgumentValidationError("Argument validation failed")
@@ -835,12 +834,20 @@ class KpexCLI:
                 digest.update(hashlib.sha256(f.read()).digest())
         return digest.hexdigest()[:32]
 
-    def create_lvsdb(self, args: argparse.Namespace) -> kdb.LayoutVsSchematic:
+    @staticmethod
+    def read_lvsdb(path: str) -> kdb.LayoutVsSchematic:
         lvsdb = kdb.LayoutVsSchematic()
+        lvsdb.read(path)
+        if not lvsdb.is_extracted():  # NOTE: KLayout reads files that are empty or truncated early without complaint
+            raise RuntimeError(f"LVSDB is incomplete: {path}")
+        return lvsdb
+
+    def create_lvsdb(self, args: argparse.Namespace) -> kdb.LayoutVsSchematic:
+        lvsdb: kdb.LayoutVsSchematic
 
         match args.input_mode:
             case InputMode.LVSDB:
-                lvsdb.read(args.lvsdb_path)
+                lvsdb = self.read_lvsdb(args.lvsdb_path)
             case InputMode.GDS:
                 lvs_log_path = os.path.join(args.output_dir_path, f"{args.effective_cell_name}_lvs.log")
                 lvsdb_path = os.path.join(args.output_dir_path, f"{args.effective_cell_name}.lvsdb.gz")
@@ -859,11 +866,10 @@ class KpexCLI:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
                         try:
-                            lvsdb.read(lvsdb_cache_path)
+                            lvsdb = self.read_lvsdb(lvsdb_cache_path)
                             lvs_needed = False
                         except RuntimeError as e:
                             warning(f"Cached LVSDB can't be read, LVS is needed: {e}")
-                            lvsdb = kdb.LayoutVsSchematic()
 
                 if lvs_needed:
                     lvs_runner = LVSRunner()
@@ -874,7 +880,7 @@ class KpexCLI:
                                                log_path=lvs_log_path,
                                                lvsdb_path=lvsdb_path,
                                                verbose=args.klayout_lvs_verbose)
-                    lvsdb.read(lvsdb_path)
+                    lvsdb = self.read_lvsdb(lvsdb_path)
                     if args.cache_lvs:
                         cache_dir_path = os.path.dirname(lvsdb_cache_path)
                         if not os.path.exists(cache_dir_path):
-- 
2.43.0


From b92363e34b1dd16920d77a5a56385694a38f20a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 47/70] fix: the log level of an earlier run must not hide why
 the arguments are refused

---
 klayout_pex/kpex_cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index a59e458..8a48a94 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -774,6 +774,9 @@ class KpexCLI:
             deregister_additional_handler(earlier_handler)
             earlier_handler.close()
 
+        # NOTE: the log level of an earlier invocation must not hide the messages of the validation
+        set_log_level(LogLevel.DEFAULT)
+
         def register_log_file_handler(log_path: str,
                                       formatter: Optional[logging.Formatter]) -> logging.Handler:
             handler = logging.FileHandler(log_path)
-- 
2.43.0


From d1a8d4b9f4768b16337f0ccbaf4dde35f271f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 48/70] fix: pin_layer_mapping_for_drw_gds_pair used a field
 that no longer exists

---
 klayout_pex/tech_info.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ade462c..d40c38e 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -91,10 +91,10 @@ class TechInfo:
         return {lyr.name: lyr for lyr in self.tech.layers}
 
     @cached_property
-    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, tech_pb2.PinLayerMapping]:
+    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, GDSPair]:
         return {
-            (m.drw_gds_layer, m.drw_gds_datatype): (m.pin_gds_layer, m.pin_gds_datatype)
-            for m in self.tech.pin_layer_mappings
+            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): (lyr.pin_gds_pair.layer, lyr.pin_gds_pair.datatype)
+            for lyr in self.tech.layers if lyr.HasField('pin_gds_pair')
         }
 
     @cached_property
-- 
2.43.0


From 9ee7a282429eadfb6a02bba655173db56f1951c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 49/70] fix: process_stack_layer_by_gds_pair used a field that
 process stack layers do not have

---
 klayout_pex/tech_info.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index d40c38e..f8b6c8d 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -111,10 +111,13 @@ class TechInfo:
 
     @cached_property
     def process_stack_layer_by_gds_pair(self) -> Dict[GDSPair, process_stack_pb2.ProcessStackInfo.LayerInfo]:
-        return {
-            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): self.process_stack_layer_by_name[lyr.name]
-            for lyr in self.tech.process_stack.layers
-        }
+        d = {}
+        for lyr in self.tech.process_stack.layers:
+            gds_pair = self.gds_pair_for_computed_layer_name.get(lyr.name, None) or \
+                       self.gds_pair_for_layer_name.get(lyr.name, None)
+            if gds_pair:  # NOTE: e.g. dielectrics have no GDS pair
+                d[gds_pair] = lyr
+        return d
 
     @cached_property
     def process_substrate_layer(self) -> process_stack_pb2.ProcessStackInfo.LayerInfo:
-- 
2.43.0


From b3715ddea9c76768f014b1eb17eb96666e04e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 50/70] fix: contact_above_metal_layer_name looked up a message
 instead of the name of the contact

---
 klayout_pex/tech_info.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index f8b6c8d..42cb4f7 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -216,11 +216,13 @@ class TechInfo:
         return diel_lyr, 5.0   # air TODO
 
     @cached_property
-    def contact_above_metal_layer_name(self) -> Dict[str, process_stack_pb2.ProcessStackInfo.Contact]:
+    def contact_above_metal_layer_name(self) -> Dict[str, str]:
         d = {}
         for lyr in self.process_metal_layers:
+            if not lyr.metal_layer.HasField('contact_above'):
+                continue
             contact = lyr.metal_layer.contact_above
-            via_gds_pair = self.gds_pair(contact)
+            via_gds_pair = self.gds_pair(contact.name)
             canonical_via_name = self.canonical_layer_name_by_gds_pair[via_gds_pair]
             d[lyr.name] = canonical_via_name
         return d
-- 
2.43.0


From 13c5a8ba61b591aa279d5623c02e3c4a6935d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 51/70] fix: side overlap capacitances of a layer without
 substrate capacitance must not crash

---
 klayout_pex/tech_info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index 42cb4f7..5dc4f80 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -400,7 +400,10 @@ class TechInfo:
 
         for k1, ve in d2.items():
             for k2, v in ve.items():
-                d[k1][k2] = v
+                if k1 not in d:
+                    d[k1] = {k2: v}
+                else:
+                    d[k1][k2] = v
 
         return d
 
-- 
2.43.0


From 7202d1099e36fe877a84bb5a4da7f9c863ff255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 52/70] fix: sky130A vias above MiM capacitors must end at the
 bottom of the metal above (thickness of the capacitor dielectric)

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 6832b67..932b48c 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -297,9 +297,9 @@ void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
     setContact(via,        "via1_con",       "met1",      "met2",      0.27,                    0.15,    0.17,  0.055);
     setContact(via2,       "via2_con",       "met2",      "met3",      0.42,                    0.20,    0.20,  0.04);
     setContact(via3_ncap,  "via3_ncap",      "met3",      "met4",      0.39,                    0.20,    0.20,  0.06);
-    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.29,                    0.20,    0.20,  0.06);
+    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.39 - 0.02 - 0.1,       0.20,    0.20,  0.06);
     setContact(via4_ncap,  "via4_ncap",      "met4",      "met5",      0.505,                   0.80,    0.80,  0.19);
-    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - 0.1,             0.80,    0.80,  0.19);
+    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - 0.02 - 0.1,      0.80,    0.80,  0.19);
 }
 
 void buildProcessParasiticsInfo(kpex::tech::ProcessParasiticsInfo *ex) {
-- 
2.43.0


From 1b60375c5bf45b4935acb43278fb2704a66bb318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:21 +0000
Subject: [PATCH 53/70] fix: technology files that cannot be written or read
 must not pass silently

---
 cxx/gen_tech_pb/protobuf.cpp | 31 ++++++++++++++++++++++++++-----
 cxx/gen_tech_pb/protobuf.h   |  1 +
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/cxx/gen_tech_pb/protobuf.cpp b/cxx/gen_tech_pb/protobuf.cpp
index 4443787..37b97cf 100644
--- a/cxx/gen_tech_pb/protobuf.cpp
+++ b/cxx/gen_tech_pb/protobuf.cpp
@@ -43,14 +43,25 @@ void write(const kpex::tech::Technology &tech,
             std::ofstream output(outputPath, std::ios::out | std::ios::binary);
             output << "# proto-file: tech.proto" << std::endl
                    << "# proto-message: kpex.tech.Technology" << std::endl << std::endl;
-            google::protobuf::io::OstreamOutputStream zcos(&output);
-            google::protobuf::TextFormat::Print(tech, &zcos);
+            bool ok;
+            {
+                google::protobuf::io::OstreamOutputStream zcos(&output);
+                ok = google::protobuf::TextFormat::Print(tech, &zcos);
+            } // NOTE: flushes to output
+            output.close();
+            if (!ok || !output) {
+                throw std::runtime_error("Failed to write file " + outputPath);
+            }
             break;
         }
 
         case Format::PROTOBUF_BINARY: {
             std::ofstream output(outputPath, std::ios::out | std::ios::binary);
-            tech.SerializeToOstream(&output);
+            const bool ok = tech.SerializeToOstream(&output);
+            output.close();
+            if (!ok || !output) {
+                throw std::runtime_error("Failed to write file " + outputPath);
+            }
             break;
         }
             
@@ -64,6 +75,9 @@ void write(const kpex::tech::Technology &tech,
             std::ofstream output(outputPath, std::ios::out | std::ios::binary);
             output << jsonString;
             output.close();
+            if (!status.ok() || !output) {
+                throw std::runtime_error("Failed to write file " + outputPath);
+            }
             break;
         }
     }
@@ -80,13 +94,17 @@ void read(kpex::tech::Technology *tech,
         case Format::PROTOBUF_TEXTUAL: {
             std::fstream input(inputPath, std::ios::in);
             google::protobuf::io::IstreamInputStream fis(&input);
-            google::protobuf::TextFormat::Parse(&fis, tech);
+            if (!input || !google::protobuf::TextFormat::Parse(&fis, tech)) {
+                throw std::runtime_error("Failed to read file " + inputPath);
+            }
             break;
         }
             
         case Format::PROTOBUF_BINARY: {
             std::fstream input(inputPath, std::ios::in | std::ios::binary);
-            tech->ParseFromIstream(&input);
+            if (!input || !tech->ParseFromIstream(&input)) {
+                throw std::runtime_error("Failed to read file " + inputPath);
+            }
             break;
         }
         
@@ -98,6 +116,9 @@ void read(kpex::tech::Technology *tech,
             buffer << input.rdbuf();
             auto status =
                 google::protobuf::util::JsonStringToMessage(buffer.str(), tech, options);
+            if (!status.ok()) {
+                throw std::runtime_error("Failed to read file " + inputPath);
+            }
             break;
         }
     }
diff --git a/cxx/gen_tech_pb/protobuf.h b/cxx/gen_tech_pb/protobuf.h
index 9c34fbb..97da91e 100644
--- a/cxx/gen_tech_pb/protobuf.h
+++ b/cxx/gen_tech_pb/protobuf.h
@@ -34,6 +34,7 @@
 #include <fstream>
 #include <string>
 #include <sstream>
+#include <stdexcept>
 
 #include "kpex/tech/tech.pb.h"
 
-- 
2.43.0


From 13c917adcd5ebfecb5ec5225a02ad5320cd26ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:36 +0000
Subject: [PATCH 54/70] fix: quote paths and cell names in the MAGIC Tcl script

Blanks, $, brackets or braces in a path or cell name were interpreted by Tcl, so that another file or cell was
addressed or the script was refused.
---
 klayout_pex/magic/magic_runner.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 8ba7aae..3caa927 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -26,6 +26,7 @@ import time
 from typing import *
 
 import os
+import re
 import subprocess
 
 from ..log import (
@@ -58,6 +59,13 @@ class MagicMergeMode(StrEnum):
     DEFAULT = NONE
 
 
+def tcl_word(value: str) -> str:
+    """
+    Quotes a path or a cell name, so that Tcl takes it literally, as a single word
+    """
+    return re.sub(r'[\s\\$\[\]{}";#]', lambda m: f"\\{m.group()}", value)
+
+
 def prepare_magic_script(gds_path: str,
                          cell_name: str,
                          run_dir_path: str,
@@ -74,6 +82,12 @@ def prepare_magic_script(gds_path: str,
     run_dir_path = os.path.abspath(run_dir_path)
     output_netlist_path = os.path.abspath(output_netlist_path)
 
+    # NOTE: paths and cell names may contain characters that are special to Tcl (e.g. blanks, $, [])
+    gds_path = tcl_word(gds_path)
+    cell_name = tcl_word(cell_name)
+    run_dir_path = tcl_word(run_dir_path)
+    output_netlist_path = tcl_word(output_netlist_path)
+
     halo_scale = 200.0
     halo_decl = '' if halo is None else f"\nextract halo {round(halo * halo_scale)}"
 
-- 
2.43.0


From d9f3d927c785c2f957782e26a87f3b1b12829709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:36 +0000
Subject: [PATCH 55/70] fix: read all nodes, ports, devices and resistors of
 MAGIC .ext files

Nodes with fractional capacitances, nodes whose names are not plain words (e.g. a_27_47#, out[3]) and resistors
with exponents were silently left out, and a cell whose name contains '.ext' was taken for another one.
---
 .../magic/magic_ext_data_structures.py        |  4 ++--
 klayout_pex/magic/magic_ext_file_parser.py    | 24 +++++++++++--------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_data_structures.py b/klayout_pex/magic/magic_ext_data_structures.py
index 7083809..93eb093 100644
--- a/klayout_pex/magic/magic_ext_data_structures.py
+++ b/klayout_pex/magic/magic_ext_data_structures.py
@@ -48,7 +48,7 @@ class Port:
 class Node:
     net: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
     layer: str
@@ -94,7 +94,7 @@ class ExtData:
 class ResNode:
     name: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
 
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..c47d85e 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -41,6 +41,10 @@ from .magic_ext_data_structures import (
 )
 
 
+# numbers as MAGIC prints them (printf format %g)
+NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
+
+
 def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
     # search for <cell>.ext files (C related)
     # search for <cell>.res.ext files (R related)
@@ -50,7 +54,7 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
     main_paths_by_cell_name: Dict[CellName, Path] = dict()
     res_paths_by_cell_name: Dict[CellName, Path] = dict()
 
-    regex = r'(?P<cell>.*?)(?P<res>\.res)?\.ext'
+    regex = r'(?P<cell>.*?)(?P<res>\.res)?\.ext$'
     for ef in ext_files:
         m = re.match(regex, ef.name)
         if not m:
@@ -85,12 +89,12 @@ def parse_magic_ext_file(path: Path) -> ExtData:
     nodes: List[Node] = []
     devices: List[Device] = []
 
-    with open(path, 'r') as f:
+    with open(path, 'r', encoding='utf-8', errors='backslashreplace') as f:
         for line in f.readlines():
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                r'^port "(?P<net>[^"]*)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\S+)$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,18 +105,18 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                rf'^(node|substrate) "(?P<net>[^"]*)" (?P<int_r>\d+) (?P<fin_c>{NUMBER}) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\S+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
                                   int_r=int(m.group('int_r')),
-                                  fin_c=int(m.group('fin_c')),
+                                  fin_c=float(m.group('fin_c')),
                                   x_bot=int(m.group('x_bot')),
                                   y_bot=int(m.group('y_bot')),
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^device (?P<type>\w+) (?P<model>\w+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) .*$',
+                r'^device (?P<type>\w+) (?P<model>\S+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) .*$',
                 line.strip())
             if m:
                 t = m.group('type')
@@ -130,20 +134,20 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     rnodes = []
     resistors = []
 
-    with open(path, 'r') as f:
+    with open(path, 'r', encoding='utf-8', errors='backslashreplace') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                rf'^rnode "(?P<name>[^"]*)" (?P<int_r>-?\d+) (?P<fin_c>{NUMBER}) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
                                       int_r=int(m.group('int_r')),  # NOTE: R is always 0!
-                                      fin_c=int(m.group('fin_c')),
+                                      fin_c=float(m.group('fin_c')),
                                       x_bot=int(m.group('x_bot')),
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                rf'^resist "(?P<node1>[^"]*)" "(?P<node2>[^"]*)" (?P<value>{NUMBER})$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From 7d5d45c809694d9a1d1802e30e1d0dc53f8e76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 56/70] fix: round instead of truncating MAGIC coordinates in
 the report

Scaling errors such as 57 / 200 / 0.001 = 284.99999999999994 moved one in seven coordinates by one database unit.
---
 klayout_pex/magic/magic_log_analyzer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..dd6c54d 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -68,15 +68,17 @@ class MagicLogAnalyzer:
         dbu_to_um = 200.0
 
         def box_for_point_dbu(x: float, y: float) -> kdb.Box:
+            # NOTE: kdb.Box() would truncate floating point coordinates
+            x, y = round(x), round(y)
             return kdb.Box(x, y, x + 20, y + 20)
 
+        def box_dbu(x_bot: float, y_bot: float, x_top: float, y_top: float) -> kdb.Box:
+            return kdb.Box(*(round(v / dbu_to_um / self.dbu) for v in (x_bot, y_bot, x_top, y_top)))
+
         for p in cell_data.ext_data.ports:
             port_cat = self.report.create_category(parent=ports_cat, name=f"{p.net} ({p.layer})")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(p.x_bot / dbu_to_um / self.dbu,
-                                  p.y_bot / dbu_to_um / self.dbu,
-                                  p.x_top / dbu_to_um / self.dbu,
-                                  p.y_top / dbu_to_um / self.dbu))
+            shapes.insert(box_dbu(p.x_bot, p.y_bot, p.x_top, p.y_top))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=port_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -92,10 +94,7 @@ class MagicLogAnalyzer:
             device_cat = self.report.create_category(parent=devices_cat,
                                                      name=f"Type={d.device_type} Model={d.model}")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / self.dbu,
-                                  d.y_bot / dbu_to_um / self.dbu,
-                                  d.x_top / dbu_to_um / self.dbu,
-                                  d.y_top / dbu_to_um / self.dbu))
+            shapes.insert(box_dbu(d.x_bot, d.y_bot, d.x_top, d.y_top))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=device_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
-- 
2.43.0


From 15a06426b240f1891a171abb68e63b30c5ab824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 57/70] fix: magic_log_analyzer: use the documented default for
 --out

---
 klayout_pex/magic/magic_log_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index dd6c54d..b436533 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -147,7 +147,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From fdce572cdf53b6b72986291c02c66d2023b0e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:09 +0000
Subject: [PATCH 58/70] fix: write FasterCap and STL files for net names that
 are no file names

Net names with slashes, and long names (of STL files, or with multi-byte characters), ended in an OSError.
---
 .../fastercap/fastercap_model_generator.py    | 52 ++++++++++++++-----
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 91869ab..083720e 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -64,6 +64,7 @@ import base64
 from collections import defaultdict
 import hashlib
 import os
+import re
 from typing import *
 from dataclasses import dataclass
 from functools import reduce
@@ -731,12 +732,35 @@ class FasterCapModelGenerator:
 
         self.diel_data = dk
 
-    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
-        max_filename_length: Optional[int] = None
+    @staticmethod
+    def _max_filename_length(dir_path: str) -> Optional[int]:
         try:
-            max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
+            return os.pathconf(dir_path, 'PC_NAME_MAX')
         except AttributeError:
-            pass  # NOTE: windows does not support the os.pathconf attribute
+            return None  # NOTE: windows does not support the os.pathconf attribute
+
+    @staticmethod
+    def _net_file_name(head: str,
+                       net_name: str,
+                       tail: str,
+                       max_filename_length: Optional[int]) -> str:
+        # NOTE: net names may contain path separators, or blanks (which separate the tokens in *.lst files)
+        name = re.sub(r'[\s/\\]', '_', net_name)
+        max_name_length = None if max_filename_length is None \
+            else max_filename_length - len(f"{head}{tail}".encode('utf-8'))
+        too_long = max_name_length is not None and len(name.encode('utf-8')) > max_name_length
+        if too_long:
+            warning(f"Unusual long net name detected: {net_name}")
+        if too_long or name != net_name:
+            d = hashlib.md5(net_name.encode('utf-8')).digest()
+            h = '_' + base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
+            if max_name_length is not None:
+                name = name.encode('utf-8')[0: max_name_length - len(h)].decode('utf-8', errors='ignore')
+            name += h
+        return f"{head}{name}{tail}"
+
+    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
+        max_filename_length = self._max_filename_length(output_dir_path)
 
         lst_fn = os.path.join(output_dir_path, f"{prefix}.lst")
         file_num = 0
@@ -796,14 +820,10 @@ class FasterCapModelGenerator:
 
                 outside = outside or '(void)'
                 # lst_file.append(f"* Conductor interface: outside={outside}, net={nn}")
-                fn = f"{prefix}{file_num}_outside={outside}_net={nn}.geo"
-                if max_filename_length is not None and len(fn) > max_filename_length:
-                    warning(f"Unusual long net name detected: {nn}")
-                    d = hashlib.md5(nn.encode('utf-8')).digest()
-                    h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo")
-                    short_nn = nn[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
-                    fn = f"{prefix}{file_num}_outside={outside}_net={short_nn}.geo"
+                fn = self._net_file_name(head=f"{prefix}{file_num}_outside={outside}_net=",
+                                         net_name=nn,
+                                         tail='.geo',
+                                         max_filename_length=max_filename_length)
                 output_path = os.path.join(output_dir_path, fn)
                 self._write_fastercap_geo(output_path=output_path,
                                           data=data,
@@ -960,6 +980,8 @@ class FasterCapModelGenerator:
                     edges_by_p2[r.p1].append(r)
 
     def dump_stl(self, output_dir_path: str, prefix: str):
+        max_filename_length = self._max_filename_length(output_dir_path)
+
         for mn in self.materials.keys():
             tris = self._collect_diel_tris(mn)
             output_path = os.path.join(output_dir_path, f"{prefix}diel_{mn}.stl")
@@ -967,7 +989,11 @@ class FasterCapModelGenerator:
 
         for nn in self.net_names:
             tris = self._collect_cond_tris(nn)
-            output_path = os.path.join(output_dir_path, f"{prefix}cond_{nn}.stl")
+            fn = self._net_file_name(head=f"{prefix}cond_",
+                                     net_name=nn,
+                                     tail='.stl',
+                                     max_filename_length=max_filename_length)
+            output_path = os.path.join(output_dir_path, fn)
             self._write_as_stl(output_path, tris)
 
     @staticmethod
-- 
2.43.0


From 417e4b8c8b2e78eb4c0f5274c1f8d1c1e8560129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:09 +0000
Subject: [PATCH 59/70] fix: thickness and position of a conformal dielectric
 on top of another one

pass2 of sg13g2 was 3.4 instead of 0.4 um thick above TopMetal2 (the metal thickness was added once more), and it
started at the bottom of the metal instead of on top of pass1 where there is no metal.
---
 klayout_pex/fastercap/fastercap_input_builder.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_input_builder.py b/klayout_pex/fastercap/fastercap_input_builder.py
index c746e51..67b75e9 100644
--- a/klayout_pex/fastercap/fastercap_input_builder.py
+++ b/klayout_pex/fastercap/fastercap_input_builder.py
@@ -256,6 +256,7 @@ class FasterCapInputBuilder:
             #
             if extracted_shapes:
                 sidewall_height = 0
+                has_conformal = False
                 sidewall_region = extracted_shapes
                 sidewallee = metal_layer_name
 
@@ -281,7 +282,10 @@ class FasterCapInputBuilder:
                             conf_diel = sidewall.conformal_dielectric_layer
                             d = math.floor(conf_diel.thickness_sidewall / self.dbu)
                             sidewall_region = sidewall_region.sized(d)
-                            h_delta = metal_layer.thickness + conf_diel.thickness_over_metal
+                            h_delta = conf_diel.thickness_over_metal
+                            if not has_conformal:  # NOTE: further conformal dielectrics are on top of this one
+                                h_delta += metal_layer.thickness
+                            has_conformal = True
                             sidewall_height += h_delta
                             info(f"Conformal dielectric (sidewall) {sidewall.name}: "
                                  f"z={metal_layer.z}, height={sidewall_height}")
@@ -294,13 +298,14 @@ class FasterCapInputBuilder:
                                 no_metal_region = kdb.Region()
                                 no_metal_region.insert(no_metal_block)
                                 no_metal_region -= sidewall_region
-                                no_metal_height = conf_diel.thickness_where_no_metal
+                                no_metal_z = metal_layer.z + no_metal_height
                                 info(f"Conformal dielectric (where no metal) {sidewall.name}: "
-                                     f"z={metal_layer.z}, height={no_metal_height}")
+                                     f"z={no_metal_z}, height={conf_diel.thickness_where_no_metal}")
                                 model_builder.add_dielectric(material_name=sidewall.name,
                                                              layer=no_metal_region,
-                                                             z=metal_layer.z,
-                                                             height=no_metal_height)
+                                                             z=no_metal_z,
+                                                             height=conf_diel.thickness_where_no_metal)
+                                no_metal_height += conf_diel.thickness_where_no_metal
 
                     sidewallee = sidewall.name
 
-- 
2.43.0


From 3aef98018ccedd75d9679015ca314ec1f6b2bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:05 +0000
Subject: [PATCH 60/70] fix: device terminals on layers the technology does not
 know must not crash R extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 5b68505..2ffc152 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -409,10 +409,14 @@ class KLayoutExtractionContext:
                         if lyr_idx is None:
                             continue  # e.g. layers of blackboxed devices
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
+                        canonical_layer_name = self.tech.canonical_layer_name_by_gds_pair.get(
+                            (lyr_info.layer, lyr_info.datatype), None)
+                        if canonical_layer_name is None:
+                            continue  # layers the technology does not know
 
                         region_by_layer = terminal.region_by_layer.add()
                         region_by_layer.layer.id = lyr_idx
-                        region_by_layer.layer.canonical_layer_name = self.tech.canonical_layer_name_by_gds_pair[lyr_info.layer, lyr_info.datatype]
+                        region_by_layer.layer.canonical_layer_name = canonical_layer_name
 
                         shapes_converter.klayout_region_to_pb(shapes, region_by_layer.region)
 
-- 
2.43.0


From c1c8d9fbeb58f2f520759b87c98048766a08d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:31 +0000
Subject: [PATCH 61/70] fix: output of netlistsvg that is not UTF-8 must not
 crash the run

---
 klayout_pex/netlistsvg/netlistsvg_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 66b1dc9..3169c6a 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -67,6 +67,7 @@ def run_netlistsvg(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
+                            errors='backslashreplace',
                             text=True)
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
-- 
2.43.0


From 54d1fff8ec9a3b886d30a3111126bbf7b5c823c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 62/70] fix: last line of the output of a tool lost its last
 character in the log of the run, if it has no newline

---
 klayout_pex/fastcap/fastcap_runner.py       | 2 +-
 klayout_pex/fastercap/fastercap_runner.py   | 2 +-
 klayout_pex/klayout/lvs_runner.py           | 2 +-
 klayout_pex/magic/magic_runner.py           | 2 +-
 klayout_pex/netlistsvg/netlistsvg_runner.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index d8da5dc..02c28b4 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -91,7 +91,7 @@ def run_fastcap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index 27a1d06..1942db9 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -88,7 +88,7 @@ def run_fastercap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 32b82bd..e39359a 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -89,7 +89,7 @@ class LVSRunner:
                 line = proc.stdout.readline()
                 if not line:
                     break
-                subproc(line[:-1])  # remove newline
+                subproc(line.removesuffix('\n'))
                 f.writelines([line])
         proc.wait()
 
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 3caa927..99650b8 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -209,7 +209,7 @@ def run_magic(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 3169c6a..45a3629 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -74,7 +74,7 @@ def run_netlistsvg(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
-- 
2.43.0


From 31dce892fa0822abc914017554b2515f731f7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 63/70] fix: --log_level all showed nothing but warnings and
 errors

---
 klayout_pex/log/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..8454980 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -31,7 +31,7 @@ from typing import *
 
 
 class LogLevel(IntEnum):
-    ALL = 0
+    ALL = 1  # NOTE: 0 is logging.NOTSET, i.e. the level of the root logger (WARNING)
     DEBUG = 10
     SUBPROCESS = 12
     VERBOSE = 15
-- 
2.43.0


From cee2d2447c1710cb401e5b01d5cc61ce360f8aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 64/70] fix: runs with a common output directory crashed or
 mixed up their logs, if they ran at the same time

---
 klayout_pex/kpex_cli.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 8a48a94..778c887 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -789,13 +789,19 @@ class KpexCLI:
 
         def reregister_log_file_handler(handler: logging.Handler,
                                         log_path: str,
-                                        formatter: Optional[logging.Formatter]):
+                                        formatter: Optional[logging.Formatter],
+                                        log_name: str):
             deregister_additional_handler(handler)
             KpexCLI._log_file_handlers.remove(handler)
             handler.flush()
             handler.close()
+            if not hasattr(args, 'output_dir_path'):  # invalid arguments, so there is no run directory
+                with open(log_path, 'rb') as src, open(os.path.join(args.output_dir_base_path, log_name), 'ab') as dest:
+                    shutil.copyfileobj(src, dest)
+                os.remove(log_path)
+                return
             os.makedirs(args.output_dir_path, exist_ok=True)
-            new_path = os.path.join(args.output_dir_path, os.path.basename(log_path))
+            new_path = os.path.join(args.output_dir_path, log_name)
             if os.path.exists(new_path):
                 ctime = os.path.getctime(new_path)
                 dt = datetime.fromtimestamp(ctime)
@@ -806,20 +812,20 @@ class KpexCLI:
             register_log_file_handler(log_path, formatter)
 
         # setup preliminary logger
-        cli_log_path_plain = os.path.join(args.output_dir_base_path, f"kpex_plain.log")
-        cli_log_path_formatted = os.path.join(args.output_dir_base_path, f"kpex.log")
+        # NOTE: other runs might use the same output directory at the same time
+        cli_log_path_plain = os.path.join(args.output_dir_base_path, f"kpex_plain_{os.getpid()}.log")
+        cli_log_path_formatted = os.path.join(args.output_dir_base_path, f"kpex_{os.getpid()}.log")
         formatter = logging.Formatter('[%(asctime)s] [%(levelname)s]    %(message)s')
         file_handler_plain = register_log_file_handler(cli_log_path_plain, None)
         file_handler_formatted = register_log_file_handler(cli_log_path_formatted, formatter)
         try:
             self.validate_args(args)
         except ArgumentValidationError:
-            if hasattr(args, 'output_dir_path'):
-                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-                reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+            reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None, 'kpex_plain.log')
+            reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter, 'kpex.log')
             sys.exit(1)
-        reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+        reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None, 'kpex_plain.log')
+        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter, 'kpex.log')
 
         set_log_level(args.log_level)
 
-- 
2.43.0


From efc32285969ae375e41031d921848768cb307f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 65/70] fix: backups of earlier logs overwrote each other, if
 made within a second

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 778c887..5fade78 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -807,6 +807,10 @@ class KpexCLI:
                 dt = datetime.fromtimestamp(ctime)
                 timestamp = dt.strftime('%Y-%m-%d_%H-%M-%S')
                 backup_path = f"{new_path[:-4]}_{timestamp}.bak.log"
+                number = 1
+                while os.path.exists(backup_path):  # NOTE: there may be multiple runs within a second
+                    number += 1
+                    backup_path = f"{new_path[:-4]}_{timestamp}_{number}.bak.log"
                 shutil.move(new_path, backup_path)
             log_path = shutil.move(log_path, new_path)
             register_log_file_handler(log_path, formatter)
-- 
2.43.0


From b6384f4bdc7c454f9a894d77fdaed76aedd70376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 66/70] fix: command line of a later run was written into the
 logs of the earlier run of the same process

---
 klayout_pex/kpex_cli.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 5fade78..6c090cc 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -768,12 +768,6 @@ class KpexCLI:
     _log_file_handlers: List[logging.Handler] = []
 
     def setup_logging(self, args: argparse.Namespace):
-        # NOTE: don't log into the files of an earlier invocation
-        while KpexCLI._log_file_handlers:
-            earlier_handler = KpexCLI._log_file_handlers.pop()
-            deregister_additional_handler(earlier_handler)
-            earlier_handler.close()
-
         # NOTE: the log level of an earlier invocation must not hide the messages of the validation
         set_log_level(LogLevel.DEFAULT)
 
@@ -905,6 +899,12 @@ class KpexCLI:
         return lvsdb
 
     def main(self, argv: List[str]):
+        # NOTE: don't log into the files of an earlier invocation
+        while KpexCLI._log_file_handlers:
+            earlier_handler = KpexCLI._log_file_handlers.pop()
+            deregister_additional_handler(earlier_handler)
+            earlier_handler.close()
+
         if '-v' not in argv and \
            '--version' not in argv and \
            '-h' not in argv and \
-- 
2.43.0


From ca7b70147a1bc480ec333158feff55969898ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:46 +0000
Subject: [PATCH 67/70] fix: lvs_layer_names.py imported modules that do not
 exist

---
 lvs_layer_names.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lvs_layer_names.py b/lvs_layer_names.py
index 85adcb0..9c46672 100755
--- a/lvs_layer_names.py
+++ b/lvs_layer_names.py
@@ -30,7 +30,7 @@ import shlex
 import sys
 from typing import *
 
-from kpex.log import (
+from klayout_pex.log import (
     LogLevel,
     set_log_level,
     # debug,
@@ -39,8 +39,8 @@ from kpex.log import (
     error, warning
 )
 
-from kpex.version import __version__
-from kpex.util.argparse_helpers import render_enum_help
+from klayout_pex.version import __version__
+from klayout_pex.util.argparse_helpers import render_enum_help
 
 # ------------------------------------------------------------------------------------
 
-- 
2.43.0


From eb78f2c09283f2c2256eba2df9cefcdeb9a84981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:47 +0000
Subject: [PATCH 68/70] fix: lvs_layer_names.py did not accept the log levels
 that its help lists

---
 lvs_layer_names.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lvs_layer_names.py b/lvs_layer_names.py
index 9c46672..64c25a0 100755
--- a/lvs_layer_names.py
+++ b/lvs_layer_names.py
@@ -74,7 +74,12 @@ def parse_args(arg_list: List[str] = None) -> argparse.Namespace:
 def validate_args(args: argparse.Namespace):
     found_errors = False
 
-    # ...
+    try:
+        args.log_level = LogLevel[args.log_level.upper()]
+    except KeyError:
+        error(f"Requested log level {args.log_level.lower()} does not exist, "
+              f"{render_enum_help(topic='log_level', enum_cls=LogLevel, print_default=False)}")
+        found_errors = True
 
     if found_errors:
         raise Exception("Argument validation failed")
-- 
2.43.0


From 59b57e123e0dcd516483069455bf940557378d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:09 +0000
Subject: [PATCH 69/70] fix: convert_layout_pdk.py did not accept the log
 levels that its help lists

---
 convert_layout_pdk.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/convert_layout_pdk.py b/convert_layout_pdk.py
index d111b26..3cc45bb 100755
--- a/convert_layout_pdk.py
+++ b/convert_layout_pdk.py
@@ -297,6 +297,12 @@ def invert_dict(d: Dict[str, Tuple[str]]) -> Dict[str, Tuple[str]]:
 
 def main():
     args = parse_args()
+
+    try:
+        validate_args(args)
+    except Exception:
+        sys.exit(1)
+
     setup_logging(args)
 
     info("Called with arguments:")
@@ -310,11 +316,6 @@ def main():
 
     warning(f"At the moment, only conversion between PDKs {tech_names} is supported!")
 
-    try:
-        validate_args(args)
-    except Exception:
-        sys.exit(1)
-
     tech_layer_lists = [parse_layers(lyp_path) for lyp_path in lyp_paths]
     if args.dump_layers_and_quit:
         info("Dumping all available layers…")
-- 
2.43.0


From 9a85599ba63d00fcb74f4fb3437df7b37ed299f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:09 +0000
Subject: [PATCH 70/70] fix: convert_layout_pdk.py must report a missing output
 directory

---
 convert_layout_pdk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convert_layout_pdk.py b/convert_layout_pdk.py
index 3cc45bb..b7cc984 100755
--- a/convert_layout_pdk.py
+++ b/convert_layout_pdk.py
@@ -184,7 +184,7 @@ def validate_args(args: argparse.Namespace):
             found_errors = True
 
         try:
-            dir = os.path.dirname(os.path.realpath(args.input_gds_path))
+            dir = os.path.dirname(os.path.realpath(args.output_gds_path))
             is_dir = os.path.isdir(dir)
             if not is_dir:
                 raise Exception(f"{dir} is no directory")
-- 
2.43.0

