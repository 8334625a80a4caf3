From 34715819fbeb84085bfe416fd5bdc9581d88c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 01/48] fix: export the name of a process

---
 bpmn_python/bpmn_diagram_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..198c657 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -221,6 +221,7 @@ class BpmnDiagramGraphExport(object):
         """
         process = eTree.SubElement(definitions, consts.Consts.process)
         process.set(consts.Consts.id, process_id)
+        process.set(consts.Consts.name, process_attributes_dictionary[consts.Consts.name])
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
-- 
2.43.0


From 0f8251d0323a02f089843f8e4e1eb3f9a522edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 02/48] fix: export child lane sets as childLaneSet and keep
 the ids of lane sets

---
 bpmn_python/bpmn_diagram_export.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 198c657..9e0ed57 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -238,9 +238,21 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        BpmnDiagramGraphExport.export_lane_set_id(lane_set_xml, lane_set)
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
+    @staticmethod
+    def export_lane_set_id(lane_set_xml, lane_set):
+        """
+        Adds the ID attribute, which is optional, to exported 'laneSet' or 'childLaneSet' element.
+
+        :param lane_set_xml: an XML element ('laneSet' or 'childLaneSet'),
+        :param lane_set: dictionary with exported lane set attributes.
+        """
+        if lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
+
     @staticmethod
     def export_child_lane_set(parent_xml_element, child_lane_set, plane_element):
         """
@@ -250,7 +262,8 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        BpmnDiagramGraphExport.export_lane_set_id(lane_set_xml, child_lane_set)
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From 2d3597ec8fcf07c0637c30f00d03fdd2972e377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 03/48] fix: ignore comments, processing instructions and CDATA
 sections between imported elements

---
 bpmn_python/bpmn_import_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index a0cd3d8..e6b510d 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -26,13 +26,15 @@ class BpmnImportUtils(object):
     @staticmethod
     def iterate_elements(parent):
         """
-        Helper function that iterates over child Nodes/Elements of parent Node/Element.
+        Helper function that iterates over child Elements of parent Node/Element. Other child nodes (text, comments,
+        processing instructions, CDATA sections) are skipped.
 
         :param parent: object of Element class, representing parent element.
         """
         element = parent.firstChild
         while element is not None:
-            yield element
+            if element.nodeType == element.ELEMENT_NODE:
+                yield element
             element = element.nextSibling
 
     @staticmethod
-- 
2.43.0


From d7efc2cf03c5d99b9278e06bf359b4e1cde6bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 04/48] fix: import text content that is empty, padded with
 whitespace or split by CDATA and comments

---
 bpmn_python/bpmn_diagram_import.py |  8 ++++----
 bpmn_python/bpmn_import_utils.py   | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..0cf097c 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -276,7 +276,7 @@ class BpmnDiagramGraphImport(object):
                 if tag_name == consts.Consts.child_lane_set:
                     child_lane_set_attr = BpmnDiagramGraphImport.import_child_lane_set_element(element, plane_element)
                 elif tag_name == consts.Consts.flow_node_ref:
-                    flow_node_ref_id = element.firstChild.nodeValue
+                    flow_node_ref_id = utils.BpmnImportUtils.get_element_text(element).strip()
                     flow_node_refs.append(flow_node_ref_id)
 
         lane_attr = {consts.Consts.id: lane_id, consts.Consts.name: lane_name,
@@ -363,7 +363,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.incoming_flow:
-                    incoming_value = tmp_element.firstChild.nodeValue
+                    incoming_value = utils.BpmnImportUtils.get_element_text(tmp_element).strip()
                     incoming_list.append(incoming_value)
         bpmn_graph.node[element_id][consts.Consts.incoming_flow] = incoming_list
 
@@ -373,7 +373,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.outgoing_flow:
-                    outgoing_value = tmp_element.firstChild.nodeValue
+                    outgoing_value = utils.BpmnImportUtils.get_element_text(tmp_element).strip()
                     outgoing_list.append(outgoing_value)
         bpmn_graph.node[element_id][consts.Consts.outgoing_flow] = outgoing_list
 
@@ -738,7 +738,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
-                    condition_expression = element.firstChild.nodeValue
+                    condition_expression = utils.BpmnImportUtils.get_element_text(element)
                     diagram_graph[source_ref][target_ref][consts.Consts.condition_expression] = {
                         consts.Consts.id: element.getAttribute(consts.Consts.id),
                         consts.Consts.condition_expression: condition_expression
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index e6b510d..9ca96e0 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -37,6 +37,17 @@ class BpmnImportUtils(object):
                 yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_element_text(element):
+        """
+        Helper function that returns the text content of an element, which may be empty or split into several nodes
+        by comments and CDATA sections.
+
+        :param element: object of Element class.
+        """
+        return "".join(node.nodeValue for node in element.childNodes
+                       if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE))
+
     @staticmethod
     def generate_nodes_clasification(bpmn_diagram):
         """
-- 
2.43.0


From 53904fae8660175a8d91f8b4a9bce0c15218d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:54 +0000
Subject: [PATCH 05/48] fix: export one edge per message flow and one shape per
 participant

---
 bpmn_python/bpmn_diagram_export.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 9e0ed57..7b040e9 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -458,16 +458,6 @@ class BpmnDiagramGraphExport(object):
                 message_flow.set(consts.Consts.source_ref, message_flow_attr[consts.Consts.source_ref])
                 message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
 
-                message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
-                output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
-                output_flow.set(consts.Consts.id, message_flow_id + "_gui")
-                output_flow.set(consts.Consts.bpmn_element, message_flow_id)
-                waypoints = message_flow_params[consts.Consts.waypoints]
-                for waypoint in waypoints:
-                    waypoint_element = eTree.SubElement(output_flow, "omgdi:waypoint")
-                    waypoint_element.set(consts.Consts.x, waypoint[0])
-                    waypoint_element.set(consts.Consts.y, waypoint[1])
-
             for participant_id, participant_attr in participants.items():
                 participant = eTree.SubElement(collaboration_xml, consts.Consts.participant)
                 participant.set(consts.Consts.id, participant_id)
@@ -511,7 +501,9 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # shapes of participants have been exported with the collaboration
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
-- 
2.43.0


From 12b4ab176f0e6865222a810f08625030ffd869c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:54 +0000
Subject: [PATCH 06/48] fix: export and query diagrams in which some elements
 have no diagram interchange data

---
 bpmn_python/bpmn_diagram_export.py | 12 ++++++++++++
 bpmn_python/bpmn_diagram_rep.py    |  5 +++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 7b040e9..cb04c37 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -288,6 +288,9 @@ class BpmnDiagramGraphExport(object):
                 flow_node_ref_xml = eTree.SubElement(lane_xml, consts.Consts.flow_node_ref)
                 flow_node_ref_xml.text = flow_node_ref_id
 
+        if consts.Consts.x not in lane_attr:
+            # no Diagram Interchange data for this lane
+            return
         output_element_di = eTree.SubElement(plane_element, BpmnDiagramGraphExport.bpmndi_namespace +
                                              consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, lane_id + "_gui")
@@ -377,6 +380,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with node parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for node DI data).
         """
+        if consts.Consts.width not in params:
+            # no Diagram Interchange data for this node
+            return
         output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, node_id + "_gui")
 
@@ -418,6 +424,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with edge parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for edge DI data).
         """
+        if consts.Consts.waypoints not in params:
+            # no Diagram Interchange data for this flow
+            return
         output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
         output_flow.set(consts.Consts.id, params[consts.Consts.id] + "_gui")
         output_flow.set(consts.Consts.bpmn_element, params[consts.Consts.id])
@@ -464,6 +473,9 @@ class BpmnDiagramGraphExport(object):
                 participant.set(consts.Consts.name, participant_attr[consts.Consts.name])
                 participant.set(consts.Consts.process_ref, participant_attr[consts.Consts.process_ref])
 
+                if consts.Consts.x not in participant_attr:
+                    # no Diagram Interchange data for this participant
+                    continue
                 output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace +
                                                      consts.Consts.bpmn_shape)
                 output_element_di.set(consts.Consts.id, participant_id + "_gui")
diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..642bbe3 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -538,12 +538,13 @@ class BpmnDiagramGraph(object):
 
     def get_nodes_positions(self):
         """
-        Getter method for nodes positions.
+        Getter method for nodes positions. Nodes that have not been placed on the diagram are left out.
 
         :return: A dictionary with nodes as keys and positions as values
         """
         nodes = self.get_nodes()
         output = {}
         for node in nodes:
-            output[node[0]] = (float(node[1][consts.Consts.x]), float(node[1][consts.Consts.y]))
+            if consts.Consts.x in node[1]:
+                output[node[0]] = (float(node[1][consts.Consts.x]), float(node[1][consts.Consts.y]))
         return output
-- 
2.43.0


From 635c31087d359bdf129ce941531449709195c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:32 +0000
Subject: [PATCH 07/48] fix: export without diagram data keeps containers,
 lanes and collaboration

---
 bpmn_python/bpmn_diagram_export.py | 50 ++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index cb04c37..a7c26e0 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -437,23 +437,14 @@ class BpmnDiagramGraphExport(object):
             waypoint_element.set(consts.Consts.y, waypoint[1])
 
     @staticmethod
-    def export_xml_file(directory, filename, bpmn_diagram):
+    def export_collaboration(definitions, collaboration, plane):
         """
-        Exports diagram inner graph to BPMN 2.0 XML file (with Diagram Interchange data).
+        Creates 'collaboration' element (participants and message flows) for exported BPMN XML file.
 
-        :param directory: string representing output directory,
-        :param filename: string representing output file name,
-        :param bpmn_diagram: BPMNDiagramGraph class instantion representing a BPMN process diagram.
+        :param definitions: an XML element ('definitions'), root element of BPMN 2.0 document,
+        :param collaboration: dictionary with exported 'collaboration' element attributes and child elements,
+        :param plane: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        diagram_attributes = bpmn_diagram.diagram_attributes
-        plane_attributes = bpmn_diagram.plane_attributes
-        collaboration = bpmn_diagram.collaboration
-        process_elements_dict = bpmn_diagram.process_elements
-        definitions = BpmnDiagramGraphExport.export_definitions_element()
-
-        [_, plane] = BpmnDiagramGraphExport.export_diagram_plane_elements(definitions, diagram_attributes,
-                                                                          plane_attributes)
-
         if collaboration is not None and len(collaboration) > 0:
             message_flows = collaboration[consts.Consts.message_flows]
             participants = collaboration[consts.Consts.participants]
@@ -487,6 +478,26 @@ class BpmnDiagramGraphExport(object):
                 bounds.set(consts.Consts.x, participant_attr[consts.Consts.x])
                 bounds.set(consts.Consts.y, participant_attr[consts.Consts.y])
 
+    @staticmethod
+    def export_xml_file(directory, filename, bpmn_diagram):
+        """
+        Exports diagram inner graph to BPMN 2.0 XML file (with Diagram Interchange data).
+
+        :param directory: string representing output directory,
+        :param filename: string representing output file name,
+        :param bpmn_diagram: BPMNDiagramGraph class instantion representing a BPMN process diagram.
+        """
+        diagram_attributes = bpmn_diagram.diagram_attributes
+        plane_attributes = bpmn_diagram.plane_attributes
+        collaboration = bpmn_diagram.collaboration
+        process_elements_dict = bpmn_diagram.process_elements
+        definitions = BpmnDiagramGraphExport.export_definitions_element()
+
+        [_, plane] = BpmnDiagramGraphExport.export_diagram_plane_elements(definitions, diagram_attributes,
+                                                                          plane_attributes)
+
+        BpmnDiagramGraphExport.export_collaboration(definitions, collaboration, plane)
+
         for process_id in process_elements_dict:
             process_element_attr = process_elements_dict[process_id]
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
@@ -540,23 +551,28 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
+        # collects Diagram Interchange data of pools and lanes, is not a part of exported document
+        plane = eTree.Element(BpmnDiagramGraphExport.bpmndi_namespace + "BPMNPlane")
+
+        BpmnDiagramGraphExport.export_collaboration(definitions, bpmn_diagram.collaboration, plane)
 
         for process_id in process_elements_dict:
             process_element_attr = process_elements_dict[process_id]
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
+            if consts.Consts.lane_set in process_element_attr:
+                BpmnDiagramGraphExport.export_lane_set(process, process_element_attr[consts.Consts.lane_set], plane)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From d2bd98158058858f828a86786446a642ccce6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 08/48] fix: import message flows that end at a pool

---
 bpmn_python/bpmn_diagram_import.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 0cf097c..49b7728 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -91,6 +91,15 @@ class BpmnDiagramGraphImport(object):
                 elif tag_name == consts.Consts.message_flow:
                     BpmnDiagramGraphImport.import_message_flow_to_graph(diagram_graph, message_flows_dict, element)
 
+        # participants that are present in graph (black box pools and ends of message flows) get basic node attributes
+        for participant_id in participants_dict:
+            if diagram_graph.has_node(participant_id):
+                participant_node = diagram_graph.node[participant_id]
+                participant_node[consts.Consts.type] = consts.Consts.participant
+                participant_node[consts.Consts.process] = participant_id
+                participant_node.setdefault(consts.Consts.incoming_flow, [])
+                participant_node.setdefault(consts.Consts.outgoing_flow, [])
+
     @staticmethod
     def import_participant_element(diagram_graph, participants_dictionary, participant_element):
         """
-- 
2.43.0


From 9cf3be41afe33d1124e97f5c85ac08e91d813318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 09/48] fix: do not replace the name of a sequence flow by its
 condition on export

---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index a7c26e0..041605f 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -414,7 +414,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if not params[consts.Consts.name]:
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From 0cf9bebf4253b11c02fb0a4563ab0746e0061d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 10/48] fix: import event definitions in document order

---
 bpmn_python/bpmn_diagram_import.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 49b7728..e6522ca 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -580,11 +580,11 @@ class BpmnDiagramGraphImport(object):
         """
         element_id = element.getAttribute(consts.Consts.id)
         event_def_list = []
-        for definition_type in event_definitions:
-            event_def_xml = element.getElementsByTagNameNS("*", definition_type)
-            for index in range(len(event_def_xml)):
+        for event_def_xml in utils.BpmnImportUtils.iterate_elements(element):
+            definition_type = utils.BpmnImportUtils.remove_namespace_from_tag_name(event_def_xml.tagName)
+            if definition_type in event_definitions:
                 # tuple - definition type, definition id
-                event_def_tmp = {consts.Consts.id: event_def_xml[index].getAttribute(consts.Consts.id),
+                event_def_tmp = {consts.Consts.id: event_def_xml.getAttribute(consts.Consts.id),
                                  consts.Consts.definition_type: definition_type}
                 event_def_list.append(event_def_tmp)
         diagram_graph.node[element_id][consts.Consts.event_definitions] = event_def_list
-- 
2.43.0


From 41d51dbf98b63863e4fed06325f143d06332d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 11/48] fix: export event based gateways added with
 add_gateway_to_diagram

---
 bpmn_python/bpmn_diagram_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 041605f..44c3fe6 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -94,8 +94,9 @@ class BpmnDiagramGraphExport(object):
         :param output_element: object representing BPMN XML 'eventBasedGateway' element.
         """
         output_element.set(consts.Consts.gateway_direction, node_params[consts.Consts.gateway_direction])
-        output_element.set(consts.Consts.instantiate, node_params[consts.Consts.instantiate])
-        output_element.set(consts.Consts.event_gateway_type, node_params[consts.Consts.event_gateway_type])
+        output_element.set(consts.Consts.instantiate, node_params.get(consts.Consts.instantiate, "false"))
+        output_element.set(consts.Consts.event_gateway_type,
+                           node_params.get(consts.Consts.event_gateway_type, "Exclusive"))
 
     @staticmethod
     def export_inclusive_exclusive_gateway_info(node_params, output_element):
-- 
2.43.0


From 8f0fd26226df1e9bbe5628100bfcfc6374871b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 12/48] fix: do not add a gateway whose direction is rejected

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 642bbe3..01cc42b 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
-                                                 + gateway_direction)
+                                                 + str(gateway_direction))
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
 
-- 
2.43.0


From 46d4be0a931911c95f97103332c07b834a94181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 13/48] fix: reject a sequence flow to or from an unknown node
 before changing the diagram

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 01cc42b..8ff3317 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -512,6 +512,10 @@ class BpmnDiagramGraph(object):
         :param sequence_flow_name: string object. Name of sequence flow.
         :return: a tuple, where first value is sequenceFlow ID, second a reference to created object.
         """
+        for node_id in (source_ref_id, target_ref_id):
+            if not self.diagram_graph.has_node(node_id):
+                raise bpmn_exception.BpmnPythonError("Sequence flow refers to a node that is not in diagram. Value "
+                                                     "passed: " + str(node_id))
         sequence_flow_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
         self.sequence_flows[sequence_flow_id] = {consts.Consts.name: sequence_flow_name,
                                                  consts.Consts.source_ref: source_ref_id,
-- 
2.43.0


From f420816b5739d1acad6e263a227cf43b63e0a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 14/48] fix: count all nodes when no node type is given

---
 bpmn_python/bpmn_diagram_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 2d460b8..7a9e08b 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -23,7 +23,7 @@ def get_nodes_count(bpmn_graph, node_type=None):
                       (e.g. 'task', 'sequenceFlow').
     """
 
-    return len(bpmn_graph.get_nodes(node_type=node_type))
+    return len(bpmn_graph.get_nodes(node_type=node_type or ""))
 
 
 def get_all_gateways(bpmn_graph):
-- 
2.43.0


From 3bfea3846f4b6e7ae3a89a6c8cb1b8765e625cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 15/48] fix: longest path does not repeat a node with a loop to
 itself

---
 bpmn_python/diagram_layout_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index 0b23a0b..f5bd1f7 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -217,7 +217,7 @@ def find_longest_path(previous_nodes, node, bpmn_graph):
         for outgoing_flow_id in outgoing_flows_list:
             flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
             outgoing_node = bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref])
-            if outgoing_node not in previous_nodes:
+            if outgoing_node not in tmp_previous_nodes:
                 (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                 if output_path_len > len(longest_path):
                     longest_path = output_path
@@ -278,7 +278,7 @@ def find_longest_path_tasks(path, qualified_nodes, node, bpmn_graph):
             if node[1]["type"] in node_names:
                 tmp_qualified_nodes.append(node)
 
-            if outgoing_node not in path:
+            if outgoing_node not in tmp_path:
                 (path_all_nodes, path_qualified_nodes) = find_longest_path_tasks(tmp_path, tmp_qualified_nodes,
                                                                                  outgoing_node, bpmn_graph)
                 if len(path_qualified_nodes) > len(longest_qualified_nodes):
-- 
2.43.0


From 0b0ab3c93623742e03ca4beac1531a6fe29da051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:07 +0000
Subject: [PATCH 16/48] fix: count segments of diagrams in which some flows
 have no waypoints

---
 bpmn_python/diagram_layout_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index f5bd1f7..484ef9e 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -57,7 +57,10 @@ def get_flows_segments(flows):
 
     segments = []
     for flow in flows:
-        waypoints = copy.deepcopy(flow[2][consts.Consts.waypoints])
+        waypoints = copy.deepcopy(flow[2].get(consts.Consts.waypoints))
+        if not waypoints:
+            # flow is not drawn on the diagram
+            continue
         source = waypoints.pop(0)
         while len(waypoints) > 0:
             target = waypoints.pop(0)
-- 
2.43.0


From 5670e5e16714c0e2d11d65b5ffbdec018a662b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 17/48] fix: keep both flows when two nodes are connected in
 both directions

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 8ff3317..2af2fbf 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -21,7 +21,7 @@ class BpmnDiagramGraph(object):
 
     Fields:
 
-    * diagram_graph - networkx.Graph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
+    * diagram_graph - networkx.DiGraph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
         sequenceFlow element. Edges are identified by IDs of nodes connected by edge. IDs are passed as edge parameters,
     * sequence_flows - dictionary (associative list) of sequence flows existing in diagram.
         Key attribute is sequenceFlow ID, value is a dictionary consisting three key-value pairs: "name" (sequence flow
@@ -47,7 +47,7 @@ class BpmnDiagramGraph(object):
         """
         Default constructor, initializes object fields with new instances.
         """
-        self.diagram_graph = nx.Graph()
+        self.diagram_graph = nx.DiGraph()
         self.sequence_flows = {}
         self.process_elements = {}
         self.diagram_attributes = {}
-- 
2.43.0


From 6a765051ebce061c4b0dfaf838008b2b5132bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 18/48] fix: take the text of CSV cells literally

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..f4e9218 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -609,7 +609,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).fillna("").to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From fc14a1a39b07a0c92fffed3cd12690ec741b97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 19/48] fix: keep the name of end events imported from CSV

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index f4e9218..539f4a6 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -56,7 +56,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From 414c5170a3fbc5e8871667d16fa17f3664015043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 20/48] fix: do not take the eleventh step of a CSV branch for
 its first one

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 539f4a6..b821523 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0


From 52e4a4c3bfd853c96f802dcd4033bff58b3f2ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 21/48] fix: join the branches of nested splits imported from
 CSV behind their own split

---
 bpmn_python/bpmn_process_csv_import.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index b821523..e876591 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -144,7 +144,7 @@ def get_possible_merge_continuation_successors(node_id_arg):
         possible_successors = []
         for result in re.finditer(regex_pa_merge_node_finder, node_id):
             num_let_pair = result.group(2)
-            prefix = result.group(1)
+            prefix = node_id[:result.start(2)]
             num_let_result = re.match(regex_pa_num_let, num_let_pair)
             num = num_let_result.group(1)
             inc_num = str(int(num) + 1)
@@ -485,8 +485,9 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
             pass
         elif is_there_merge_continuation(node_id, nodes_ids):
             possible_merge_successors = get_possible_merge_continuation_successors(node_id)
-            merge_successor_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_merge_successors,
-                                                                                          nodes_ids)
+            # branch of a nested split continues after the innermost split that has a continuation
+            merge_successor_id = [successor_id for successor_id in possible_merge_successors
+                                  if successor_id in nodes_ids][-1]
             merge_gateway_id, just_created = add_merge_gateway_if_not_exists(merge_successor_id, bpmn_diagram)
             if just_created:
                 add_connection(merge_gateway_id, merge_successor_id, process_dict, bpmn_diagram, sequence_flows)
-- 
2.43.0


From 746ffcdccf29221bb4a4355974cf688040dd3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 22/48] fix: goto rows of CSV sheets keep their condition and
 need no row to fall through to

---
 bpmn_python/bpmn_process_csv_import.py | 31 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index e876591..deca2e9 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -254,6 +254,18 @@ def is_node_the_end_event(node_id, process_dict):
     return process_dict[node_id][consts.Consts.csv_terminated] == 'yes'
 
 
+def get_goto_target(node_id, process_dict):
+    """
+
+    :param node_id:
+    :param process_dict:
+    :return:
+    """
+    activity = process_dict[node_id][consts.Consts.csv_activity]
+    if activity.lower().startswith("goto"):
+        return activity.strip().split()[1]
+
+
 def add_outgoing_flow(node_id, successor_node_id, bpmn_diagram):
     """
 
@@ -299,7 +311,7 @@ def get_flow_id(from_node_id, to_node_id):
     return from_node_id + "__" + to_node_id
 
 
-def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows):
+def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -307,8 +319,10 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
     :param process_dict:
     :param bpmn_diagram:
     :param sequence_flows:
+    :param condition:
     """
-    condition = get_connection_condition_if_present(to_node_id, process_dict)
+    if condition is None:
+        condition = get_connection_condition_if_present(to_node_id, process_dict)
     bpmn_diagram.diagram_graph.add_edge(from_node_id, to_node_id)
     flow_id = get_flow_id(from_node_id, to_node_id)
     bpmn_diagram.diagram_graph[from_node_id][to_node_id][consts.Consts.id] = flow_id
@@ -325,7 +339,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
                                consts.Consts.target_ref: to_node_id}
 
 
-def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows):
+def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -333,10 +347,11 @@ def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequen
     :param process_dict:
     :param diagram_graph:
     :param sequence_flows:
+    :param condition:
     """
     add_outgoing_flow(from_node_id, to_node_id, diagram_graph)
     add_incoming_flow(to_node_id, from_node_id, diagram_graph)
-    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows)
+    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition)
 
 
 def get_node_conditions(split_successors, process_dict):
@@ -472,6 +487,8 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
         node_id = str(nodes_ids_to_process.pop(0))
         if is_node_the_end_event(node_id, process_dict):
             pass
+        elif get_goto_target(node_id, process_dict) is not None:
+            add_connection(node_id, get_goto_target(node_id, process_dict), process_dict, bpmn_diagram, sequence_flows)
         elif is_there_sequence_continuation(node_id, nodes_ids):
             possible_sequence_successors = get_possible_sequence_continuation_successor(node_id)
             successor_node_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_sequence_successors,
@@ -571,9 +588,9 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
         if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
-            source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
-            target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
-            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
+            source_node, target_node = remove_node(order, process_dict, diagram_graph, sequence_flows)
+            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
+                           csv_line_dict[consts.Consts.csv_condition])
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From b5689e09db47895afa6b3f2979d2436c2218140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 23/48] fix: quote CSV cells that contain commas, quotes or
 line breaks

---
 bpmn_python/bpmn_process_csv_export.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..c8e5e1f 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+import csv
 import errno
 import os
 import string
@@ -292,8 +293,9 @@ class BpmnDiagramGraphCsvExport(object):
         :param export_elements: a dictionary object. The key is a node ID, value is a dictionary of parameters that
                will be used in exported CSV document.
         """
+        writer = csv.writer(file_object, lineterminator="\n")
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            writer.writerow(
+                [export_element["Order"], export_element["Activity"], export_element["Condition"],
+                 export_element["Who"], export_element["Subprocess"], export_element["Terminated"]])
-- 
2.43.0


From 2b563747538f455dcba4decc01f75ac3f597e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 24/48] fix: export conditions of unnamed flows and of default
 flows that skip a block to CSV

---
 bpmn_python/bpmn_process_csv_export.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index c8e5e1f..a38d6da 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -172,6 +172,11 @@ class BpmnDiagramGraphCsvExport(object):
                     condition = outgoing_flow[2][consts.Consts.name]
                 else:
                     condition = ""
+                if node_type != consts.Consts.parallel_gateway and condition == "" \
+                        and consts.Consts.condition_expression in outgoing_flow[2]:
+                    condition = outgoing_flow[2][consts.Consts.condition_expression][consts.Consts.condition_expression]
+                if outgoing_flow_id == default_flow_id:
+                    condition = "else"
 
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
-- 
2.43.0


From 9daaa1fde54fce4ed3a2bf1fb5b157e70977c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 25/48] fix: export what follows a block at the end of a branch
 once and under its own label to CSV

---
 bpmn_python/bpmn_process_csv_export.py | 56 +++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index a38d6da..62efe1a 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -100,6 +100,8 @@ class BpmnDiagramGraphCsvExport(object):
                                                                 order=order, prefix=prefix, condition=condition,
                                                                 who=who)
         elif node_type == consts.Consts.end_event:
+            if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[node[0]] and not add_join:
+                return node
             return BpmnDiagramGraphCsvExport.export_end_event(export_elements, node, order=order, prefix=prefix,
                                                               condition=condition, who=who)
         else:
@@ -138,15 +140,7 @@ class BpmnDiagramGraphCsvExport(object):
 
         if BpmnDiagramGraphCsvExport.classification_join in node_classification and not add_join:
             # If the node is a join, then retract the recursion back to the split.
-            # In case of activity - return current node. In case of gateway - return outgoing node
-            # (we are making assumption that join has only one outgoing node)
-            if node_type == consts.Consts.task or node_type == consts.Consts.subprocess:
-                return node
-            else:
-                outgoing_flow_id = outgoing_flows[0]
-                outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
-                outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
-                return outgoing_node
+            return node
         else:
             if node_type == consts.Consts.task:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
@@ -181,7 +175,9 @@ class BpmnDiagramGraphCsvExport(object):
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
-                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
+                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": "",
+                         "Join": outgoing_node[0]})
+                    next_node = outgoing_node
                 elif outgoing_flow_id == default_flow_id:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix, "else",
@@ -196,9 +192,24 @@ class BpmnDiagramGraphCsvExport(object):
                         next_node = tmp_next_node
 
             if next_node is not None:
+                if not BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node, next_node):
+                    # the branches meet behind an enclosing split
+                    return next_node
+                join_id = next_node[0]
+                # In case of activity - continue with the join. In case of gateway - continue with outgoing node
+                # (we are making assumption that join has only one outgoing node)
+                add_join = next_node[1][consts.Consts.type] in (consts.Consts.task, consts.Consts.subprocess,
+                                                                consts.Consts.end_event)
+                if not add_join:
+                    outgoing_flow = bpmn_graph.get_flow_by_id(next_node[1][consts.Consts.outgoing_flow][0])
+                    next_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
+                for export_element in export_elements:
+                    if export_element.get("Join") == join_id:
+                        export_element["Activity"] = "goto " + prefix + str(order + 1)
+                        export_element["Join"] = next_node[0]
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
-                                                             who=who, add_join=True)
+                                                             who=who, add_join=add_join)
 
         elif len(outgoing_flows) == 1:
             outgoing_flow_id = outgoing_flows[0]
@@ -210,6 +221,29 @@ class BpmnDiagramGraphCsvExport(object):
         else:
             return None
 
+    @staticmethod
+    def is_join_of_split(bpmn_graph, split_node, join_node):
+        """
+        Checks if all branches that meet in the join start in given split. If not, the join belongs to an enclosing
+        split.
+
+        :param bpmn_graph: an instance of BpmnDiagramGraph class,
+        :param split_node: networkx.Node object, classified as "Split",
+        :param join_node: networkx.Node object, classified as "Join".
+        :return: True if all branches start in given split.
+        """
+        branches_nodes = set()
+        nodes_to_visit = [split_node]
+        while nodes_to_visit:
+            node = nodes_to_visit.pop()
+            if node[0] not in branches_nodes and node[0] != join_node[0]:
+                branches_nodes.add(node[0])
+                for flow_id in node[1][consts.Consts.outgoing_flow]:
+                    flow = bpmn_graph.get_flow_by_id(flow_id)
+                    nodes_to_visit.append(bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref]))
+        return all(bpmn_graph.get_flow_by_id(flow_id)[2][consts.Consts.source_ref] in branches_nodes
+                   for flow_id in join_node[1][consts.Consts.incoming_flow])
+
     @staticmethod
     def export_start_event(bpmn_graph, export_elements, node, nodes_classification, order=0, prefix="", condition="",
                            who=""):
-- 
2.43.0


From 5ca1d0eff9b3bd99eefacecf78312be8cd847e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 26/48] fix: move rows of an occupied layout cell by a number

---
 bpmn_python/bpmn_diagram_layouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..be0932e 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -369,7 +369,7 @@ def insert_into_grid(grid, row, col, node_id):
     if occupied_cell:
         for grid_cell in grid:
             if grid_cell.row >= row:
-                grid_cell.row += consts.Consts.width
+                grid_cell.row += consts.Consts.grid_column_width
     grid.append(cell_class.GridCell(row, col, node_id))
 
 
-- 
2.43.0


From 4101594c592013a1abb700ae18e7c6ec896deaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 27/48] fix: lay out user, service and manual tasks, data
 objects and boundary events

---
 bpmn_python/bpmn_diagram_layouter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index be0932e..8eb45aa 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -134,6 +134,17 @@ def generate_elements_clasification(bpmn_graph):
             tmp.append(classification_split)
         nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
 
+    # other kinds of nodes
+    classified_ids = set(tmp_node[node_param_name][0] for tmp_node in nodes_classification)
+    for element in bpmn_graph.get_nodes():
+        if element[0] not in classified_ids:
+            tmp = [classification_element]
+            if len(element[1][consts.Consts.incoming_flow]) >= 2:
+                tmp.append(classification_join)
+            if len(element[1][consts.Consts.outgoing_flow]) >= 2:
+                tmp.append(classification_split)
+            nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
+
     flows_classification = []
     flows_list = bpmn_graph.get_flows()
     for flow in flows_list:
-- 
2.43.0


From 14a1bc2a04db6676171e658d419a71c7dc381c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 28/48] fix: lay out a split whose branches lead to a join or
 back

---
 bpmn_python/bpmn_diagram_layouter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 8eb45aa..fb2dcda 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -311,9 +311,11 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         for flow_id in outgoing_flows:
             flow = bpmn_graph.get_flow_by_id(flow_id)
             successors_id_list.append(flow[2][consts.Consts.target_ref])
-        num_of_successors = len(successors_id_list)
+        # joins are placed later, when all their predecessors have been placed
         successor_node_list = [successor_node for successor_node in nodes_with_classification
-                                      if successor_node[node_param_name][0] in successors_id_list]
+                                      if successor_node[node_param_name][0] in successors_id_list
+                                      and "Join" not in successor_node[classification_param_name]]
+        num_of_successors = len(successor_node_list)
 
         if num_of_successors % 2 != 0:
             # if number of successors is even, put one half over the split, second half below
-- 
2.43.0


From 76ad770df576b377ce7e54fb46d6dd655e492368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:28 +0000
Subject: [PATCH 29/48] fix: lay out cycles that contain no join

---
 bpmn_python/bpmn_diagram_layouter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index fb2dcda..4fe89f2 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -197,8 +197,12 @@ def topological_sort(bpmn_graph, nodes_with_classification):
                                   if tmp_node[node_param_name][0] == target_id)
                     target[1][consts.Consts.incoming_flow].remove(flow_id)
         else:
-            for node_with_classification in tmp_nodes_with_classification:
-                if "Join" in node_with_classification[classification_param_name]:
+            # a cycle without any join is broken at its first node
+            has_join = any("Join" in node_with_classification[classification_param_name]
+                           for node_with_classification in tmp_nodes_with_classification)
+            for node_with_classification in (tmp_nodes_with_classification if has_join
+                                             else tmp_nodes_with_classification[:1]):
+                if "Join" in node_with_classification[classification_param_name] or not has_join:
                     incoming_list = list(node_with_classification[node_param_name][1][consts.Consts.incoming_flow])
                     tmp_incoming_list = list(incoming_list)
                     for flow_id in tmp_incoming_list:
@@ -260,8 +264,10 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
     incoming_flows = node_with_classification[node_param_name][1][consts.Consts.incoming_flow]
     outgoing_flows = node_with_classification[node_param_name][1][consts.Consts.outgoing_flow]
 
-    if len(incoming_flows) == 0:
-        # if node has no incoming flow, put it in new row
+    placed_nodes = set(grid_cell.node_id for grid_cell in grid)
+    if not any(bpmn_graph.get_flow_by_id(flow_id)[2][consts.Consts.source_ref] in placed_nodes
+               for flow_id in incoming_flows):
+        # if node has no incoming flow (or is the first node of a cycle), put it in new row
         current_element_row = last_row
         current_element_col = last_col
         if enforced_row_num:
-- 
2.43.0


From 400ea070e17f4d8cf0c958dec8c61701a89de9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 30/48] fix: import typed element classes from the bpmn_python
 package

---
 bpmn_python/graph/classes/activities/activity_type.py       | 2 +-
 bpmn_python/graph/classes/activities/subprocess_type.py     | 6 +++---
 bpmn_python/graph/classes/activities/task_type.py           | 2 +-
 bpmn_python/graph/classes/events/catch_event_type.py        | 4 ++--
 bpmn_python/graph/classes/events/end_event_type.py          | 2 +-
 bpmn_python/graph/classes/events/event_type.py              | 2 +-
 .../graph/classes/events/intermediate_catch_event_type.py   | 2 +-
 .../graph/classes/events/intermediate_throw_event_type.py   | 2 +-
 bpmn_python/graph/classes/events/start_event_type.py        | 2 +-
 bpmn_python/graph/classes/events/throw_event_type.py        | 4 ++--
 bpmn_python/graph/classes/flow_element_type.py              | 2 +-
 .../graph/classes/gateways/exclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/gateway_type.py          | 2 +-
 .../graph/classes/gateways/inclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/parallel_gateway_type.py | 2 +-
 bpmn_python/graph/classes/lane_set_type.py                  | 4 ++--
 bpmn_python/graph/classes/lane_type.py                      | 4 ++--
 bpmn_python/graph/classes/message_flow_type.py              | 2 +-
 bpmn_python/graph/classes/participant_type.py               | 2 +-
 .../graph/classes/root_element/callable_element_type.py     | 2 +-
 .../graph/classes/root_element/event_definition_type.py     | 2 +-
 bpmn_python/graph/classes/root_element/process_type.py      | 6 +++---
 bpmn_python/graph/classes/root_element/root_element_type.py | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py             | 4 ++--
 24 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/bpmn_python/graph/classes/activities/activity_type.py b/bpmn_python/graph/classes/activities/activity_type.py
index 699a921..89b69ad 100644
--- a/bpmn_python/graph/classes/activities/activity_type.py
+++ b/bpmn_python/graph/classes/activities/activity_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tActivity of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Activity(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/activities/subprocess_type.py b/bpmn_python/graph/classes/activities/subprocess_type.py
index d527af4..de6e225 100644
--- a/bpmn_python/graph/classes/activities/subprocess_type.py
+++ b/bpmn_python/graph/classes/activities/subprocess_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tSubProcess of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class SubProcess(activity.Activity):
diff --git a/bpmn_python/graph/classes/activities/task_type.py b/bpmn_python/graph/classes/activities/task_type.py
index 56dee3d..0ab5d42 100644
--- a/bpmn_python/graph/classes/activities/task_type.py
+++ b/bpmn_python/graph/classes/activities/task_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tTask of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.activities.activity_type as activity
 
 
 class Task(activity.Activity):
diff --git a/bpmn_python/graph/classes/events/catch_event_type.py b/bpmn_python/graph/classes/events/catch_event_type.py
index 46a0ebc..f993ad5 100644
--- a/bpmn_python/graph/classes/events/catch_event_type.py
+++ b/bpmn_python/graph/classes/events/catch_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class CatchEvent(event.Event):
diff --git a/bpmn_python/graph/classes/events/end_event_type.py b/bpmn_python/graph/classes/events/end_event_type.py
index 79377e3..75c81c5 100644
--- a/bpmn_python/graph/classes/events/end_event_type.py
+++ b/bpmn_python/graph/classes/events/end_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEndEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class EndEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/event_type.py b/bpmn_python/graph/classes/events/event_type.py
index 491fb19..504823c 100644
--- a/bpmn_python/graph/classes/events/event_type.py
+++ b/bpmn_python/graph/classes/events/event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEvent of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Event(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
index 5e9b711..bcaf31e 100644
--- a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class IntermediateCatchEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
index 6276dd7..130c479 100644
--- a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class IntermediateThrowEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/start_event_type.py b/bpmn_python/graph/classes/events/start_event_type.py
index d129876..28fb25f 100644
--- a/bpmn_python/graph/classes/events/start_event_type.py
+++ b/bpmn_python/graph/classes/events/start_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tStartEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class StartEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/throw_event_type.py b/bpmn_python/graph/classes/events/throw_event_type.py
index 6b3ae4b..da7d9a4 100644
--- a/bpmn_python/graph/classes/events/throw_event_type.py
+++ b/bpmn_python/graph/classes/events/throw_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class ThrowEvent(event.Event):
diff --git a/bpmn_python/graph/classes/flow_element_type.py b/bpmn_python/graph/classes/flow_element_type.py
index 6a78189..977c952 100644
--- a/bpmn_python/graph/classes/flow_element_type.py
+++ b/bpmn_python/graph/classes/flow_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tFlowElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class FlowElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
index 7258dd1..02af765 100644
--- a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ExclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/gateway_type.py b/bpmn_python/graph/classes/gateways/gateway_type.py
index 119e636..b65aadd 100644
--- a/bpmn_python/graph/classes/gateways/gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tGateway of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Gateway(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
index 8995d42..2ca9876 100644
--- a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class InclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
index 1d9e143..d24bd6b 100644
--- a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParallelGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ParallelGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/lane_set_type.py b/bpmn_python/graph/classes/lane_set_type.py
index b8869f9..f68c6bb 100644
--- a/bpmn_python/graph/classes/lane_set_type.py
+++ b/bpmn_python/graph/classes/lane_set_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSetLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_type as lane
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_type as lane
 
 
 class LaneSet(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/lane_type.py b/bpmn_python/graph/classes/lane_type.py
index d61e7a2..c9c432c 100644
--- a/bpmn_python/graph/classes/lane_type.py
+++ b/bpmn_python/graph/classes/lane_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class Lane(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 50aee47..fdfe72c 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tMessageFlow of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class MessageFlow(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index a71fd7d..b87e6a0 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParticipant of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class Participant(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/root_element/callable_element_type.py b/bpmn_python/graph/classes/root_element/callable_element_type.py
index c1f1daa..f3c0819 100644
--- a/bpmn_python/graph/classes/root_element/callable_element_type.py
+++ b/bpmn_python/graph/classes/root_element/callable_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tCallableElement of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class CallableElement(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/event_definition_type.py b/bpmn_python/graph/classes/root_element/event_definition_type.py
index ef8020d..091f66d 100644
--- a/bpmn_python/graph/classes/root_element/event_definition_type.py
+++ b/bpmn_python/graph/classes/root_element/event_definition_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEventDefinition of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class EventDefinition(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/process_type.py b/bpmn_python/graph/classes/root_element/process_type.py
index a169eb7..6fdf24e 100644
--- a/bpmn_python/graph/classes/root_element/process_type.py
+++ b/bpmn_python/graph/classes/root_element/process_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tProcess of BPMN 2.0 graph
 """
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
-import graph.classes.root_element.callable_element_type as callable_element
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.root_element.callable_element_type as callable_element
 
 
 class Process(callable_element.CallableElement):
diff --git a/bpmn_python/graph/classes/root_element/root_element_type.py b/bpmn_python/graph/classes/root_element/root_element_type.py
index cf730f2..f047bea 100644
--- a/bpmn_python/graph/classes/root_element/root_element_type.py
+++ b/bpmn_python/graph/classes/root_element/root_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tRootElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class RootElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 1c8fa00..653de83 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSequenceFlow of BPMN 2.0 graph
 """
-import graph.classes.condition_expression_type as condition_expression
-import graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.condition_expression_type as condition_expression
+import bpmn_python.graph.classes.flow_element_type as flow_element
 
 
 class SequenceFlow(flow_element.FlowElement):
-- 
2.43.0


From 8f8c1359d9f5f9302d0df67544508f3c3424cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 31/48] fix: accept None for optional attributes of typed
 elements

---
 bpmn_python/graph/classes/base_element_type.py  | 2 +-
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/participant_type.py   | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/graph/classes/base_element_type.py b/bpmn_python/graph/classes/base_element_type.py
index 55f7e02..e3b8e9f 100644
--- a/bpmn_python/graph/classes/base_element_type.py
+++ b/bpmn_python/graph/classes/base_element_type.py
@@ -32,7 +32,7 @@ class BaseElement(object):
         """
         if value is None:
             self.__id = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("ID must be set to a String")
         else:
             self.__id = value
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index fdfe72c..b6f9893 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -100,7 +100,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if value is None:
             self.__message_ref = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("MessageRef must be set to a String")
         else:
             self.__message_ref = value
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index b87e6a0..82e1454 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -55,6 +55,6 @@ class Participant(base_element.BaseElement):
         :param value - a new value of 'process_ref' field. Must be either None (process_ref is optional according to
         BPMN 2.0 XML Schema) or String.
         """
-        if not isinstance(value, str):
+        if value is not None and not isinstance(value, str):
             raise TypeError("ProcessRef must be set to a String")
         self.__process_ref = value
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 653de83..8d4ae38 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -100,7 +100,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if value is None:
             self.__condition_expression = value
-        if not isinstance(value, condition_expression.ConditionExpression):
+        elif not isinstance(value, condition_expression.ConditionExpression):
             raise TypeError("ConditionExpression must be set to an instance of class ConditionExpression")
         else:
             self.__condition_expression = value
-- 
2.43.0


From 2fa3d937aade0522334137695f871ce6b200c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 32/48] fix: check the type of targetRef in flow constructors

---
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index b6f9893..f4b0ebd 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -22,7 +22,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(MessageFlow, self).__init__()
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 8d4ae38..29349ec 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -23,7 +23,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(SequenceFlow, self).__init__()
-- 
2.43.0


From ebd6889146be0914817251f918b6977e0f9b43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:52 +0000
Subject: [PATCH 33/48] fix: goto branches of CSV sheets keep their place among
 the branches of a split

---
 bpmn_python/bpmn_process_csv_import.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index deca2e9..2df3875 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -588,9 +588,15 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
         if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
+            incoming_flow_id = diagram_graph.diagram_graph.node[order][consts.Consts.incoming_flow][0]
+            source_node = sequence_flows[incoming_flow_id][consts.Consts.source_ref]
+            outgoing_flows = diagram_graph.diagram_graph.node[source_node][consts.Consts.outgoing_flow]
+            flow_position = outgoing_flows.index(incoming_flow_id)
             source_node, target_node = remove_node(order, process_dict, diagram_graph, sequence_flows)
             add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
                            csv_line_dict[consts.Consts.csv_condition])
+            # the flow takes the place of the goto among the branches of its source
+            outgoing_flows.insert(flow_position, outgoing_flows.pop())
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From c21c321081992d2b18ae14f685eebb9d18cc5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:52 +0000
Subject: [PATCH 34/48] fix: export to CSV a split with a branch that leads
 past the join gateway

---
 bpmn_python/bpmn_process_csv_export.py | 38 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 62efe1a..b1258ba 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -195,16 +195,21 @@ class BpmnDiagramGraphCsvExport(object):
                 if not BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node, next_node):
                     # the branches meet behind an enclosing split
                     return next_node
-                join_id = next_node[0]
                 # In case of activity - continue with the join. In case of gateway - continue with outgoing node
-                # (we are making assumption that join has only one outgoing node)
-                add_join = next_node[1][consts.Consts.type] in (consts.Consts.task, consts.Consts.subprocess,
-                                                                consts.Consts.end_event)
-                if not add_join:
+                # (we are making assumption that join has only one outgoing node), which may be a join of the same split
+                joins_ids = []
+                add_join = True
+                while add_join:
+                    joins_ids.append(next_node[0])
+                    if next_node[1][consts.Consts.type] in (consts.Consts.task, consts.Consts.subprocess,
+                                                            consts.Consts.end_event):
+                        break
                     outgoing_flow = bpmn_graph.get_flow_by_id(next_node[1][consts.Consts.outgoing_flow][0])
                     next_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
+                    add_join = BpmnDiagramGraphCsvExport.classification_join in nodes_classification[next_node[0]] \
+                        and BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node, next_node)
                 for export_element in export_elements:
-                    if export_element.get("Join") == join_id:
+                    if export_element.get("Join") in joins_ids:
                         export_element["Activity"] = "goto " + prefix + str(order + 1)
                         export_element["Join"] = next_node[0]
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
@@ -232,17 +237,20 @@ class BpmnDiagramGraphCsvExport(object):
         :param join_node: networkx.Node object, classified as "Join".
         :return: True if all branches start in given split.
         """
-        branches_nodes = set()
-        nodes_to_visit = [split_node]
+        visited_nodes = set()
+        nodes_to_visit = [join_node]
         while nodes_to_visit:
             node = nodes_to_visit.pop()
-            if node[0] not in branches_nodes and node[0] != join_node[0]:
-                branches_nodes.add(node[0])
-                for flow_id in node[1][consts.Consts.outgoing_flow]:
-                    flow = bpmn_graph.get_flow_by_id(flow_id)
-                    nodes_to_visit.append(bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref]))
-        return all(bpmn_graph.get_flow_by_id(flow_id)[2][consts.Consts.source_ref] in branches_nodes
-                   for flow_id in join_node[1][consts.Consts.incoming_flow])
+            if node[0] in visited_nodes or node[0] == split_node[0]:
+                continue
+            visited_nodes.add(node[0])
+            if len(node[1][consts.Consts.incoming_flow]) == 0:
+                # the join can be reached from the start without passing the split
+                return False
+            for flow_id in node[1][consts.Consts.incoming_flow]:
+                flow = bpmn_graph.get_flow_by_id(flow_id)
+                nodes_to_visit.append(bpmn_graph.get_node_by_id(flow[2][consts.Consts.source_ref]))
+        return True
 
     @staticmethod
     def export_start_event(bpmn_graph, export_elements, node, nodes_classification, order=0, prefix="", condition="",
-- 
2.43.0


From b94fd39d5636f631d61d1c7e9a509e51c26db1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:56 +0000
Subject: [PATCH 35/48] fix: quote ids and labels of the graph rendered to PNG

---
 bpmn_python/bpmn_diagram_visualizer.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 89009d6..e7f7781 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -56,6 +56,18 @@ def visualize_diagram(bpmn_diagram):
     plt.show()
 
 
+def quote_dot_string(value):
+    """
+    Returns a quoted DOT string for given text, so that DOT keywords and special characters are taken literally.
+    Other values are returned unchanged
+
+    :param value: id, name or other attribute value of a diagram element.
+    """
+    if not isinstance(value, str):
+        return value
+    return '"' + value.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
+
+
 def bpmn_diagram_to_dot_file(bpmn_diagram, file_name):
     """
     Convert diagram graph to dot file
@@ -78,17 +90,20 @@ def bpmn_diagram_to_png(bpmn_diagram, file_name):
     graph = pydotplus.Dot()
 
     for node in g.nodes(data=True):
+        node_name = quote_dot_string(node[0])
+        label = quote_dot_string(node[1].get(consts.Consts.node_name))
 
         if node[1].get(consts.Consts.type) == consts.Consts.task:
-            n = pydotplus.Node(name=node[0], shape="box", style="rounded", label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=node_name, shape="box", style="rounded", label=label)
         elif node[1].get(consts.Consts.type) == consts.Consts.exclusive_gateway:
-            n = pydotplus.Node(name=node[0], shape="diamond", label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=node_name, shape="diamond", label=label)
         else:
-            n = pydotplus.Node(name=node[0], label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=node_name, label=label)
         graph.add_node(n)
 
     for edge in g.edges(data=True):
-        e = pydotplus.Edge(src=edge[0], dst=edge[1], label=edge[2].get(consts.Consts.name))
+        e = pydotplus.Edge(src=quote_dot_string(edge[0]), dst=quote_dot_string(edge[1]),
+                           label=quote_dot_string(edge[2].get(consts.Consts.name)))
         graph.add_edge(e)
 
     graph.write(file_name + ".png", format='png')
-- 
2.43.0


From f904b02ae7cdf6d35664268e1834d38014f5f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:33 +0000
Subject: [PATCH 36/48] fix: quote ids and attributes of diagram elements in
 DOT files

---
 bpmn_python/bpmn_diagram_visualizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index e7f7781..1be374a 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -75,7 +75,12 @@ def bpmn_diagram_to_dot_file(bpmn_diagram, file_name):
     :param bpmn_diagram: an instance of BPMNDiagramGraph class,
     :param file_name: name of generated file.
     """
-    g = bpmn_diagram.diagram_graph
+    g = nx.DiGraph()
+    for node_id, attributes in bpmn_diagram.diagram_graph.nodes(data=True):
+        g.add_node(quote_dot_string(node_id), **{key: quote_dot_string(value) for key, value in attributes.items()})
+    for source, target, attributes in bpmn_diagram.diagram_graph.edges(data=True):
+        g.add_edge(quote_dot_string(source), quote_dot_string(target),
+                   **{key: quote_dot_string(value) for key, value in attributes.items()})
     write_dot(g, file_name + ".dot")
 
 
-- 
2.43.0


From 271fa7ac41d3283a9dc8d8713a7303cdadf71181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:53 +0000
Subject: [PATCH 37/48] fix: keep the names of pools that are nodes of the
 diagram graph

---
 bpmn_python/bpmn_diagram_import.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index e6522ca..4e1af3c 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -97,6 +97,7 @@ class BpmnDiagramGraphImport(object):
                 participant_node = diagram_graph.node[participant_id]
                 participant_node[consts.Consts.type] = consts.Consts.participant
                 participant_node[consts.Consts.process] = participant_id
+                participant_node[consts.Consts.node_name] = participants_dict[participant_id][consts.Consts.name]
                 participant_node.setdefault(consts.Consts.incoming_flow, [])
                 participant_node.setdefault(consts.Consts.outgoing_flow, [])
 
-- 
2.43.0


From 4a40679f321133709968eb62c6be9730425237dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:56 +0000
Subject: [PATCH 38/48] fix: write CSV files in UTF-8 whatever the locale

---
 bpmn_python/bpmn_process_csv_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index b1258ba..67c3378 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -5,6 +5,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 """
 from __future__ import print_function
 
+import codecs
 import copy
 import csv
 import errno
@@ -70,7 +71,7 @@ class BpmnDiagramGraphCsvExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        file_object = open(directory + filename, "w")
+        file_object = codecs.open(directory + filename, "w", encoding="utf-8")
         file_object.write("Order,Activity,Condition,Who,Subprocess,Terminated\n")
         BpmnDiagramGraphCsvExport.write_export_node_to_file(file_object, export_elements)
         file_object.close()
-- 
2.43.0


From c23fc4012ab2e825fe465f67dfffec5ae5058788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:02 +0000
Subject: [PATCH 39/48] fix: write DOT files in UTF-8 whatever the locale

---
 bpmn_python/bpmn_diagram_visualizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 1be374a..d5a1ef3 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -2,6 +2,8 @@
 """
 BPMN diagram visualization methods
 """
+import codecs
+
 import matplotlib.pyplot as plt
 import networkx as nx
 import pydotplus
@@ -81,7 +83,8 @@ def bpmn_diagram_to_dot_file(bpmn_diagram, file_name):
     for source, target, attributes in bpmn_diagram.diagram_graph.edges(data=True):
         g.add_edge(quote_dot_string(source), quote_dot_string(target),
                    **{key: quote_dot_string(value) for key, value in attributes.items()})
-    write_dot(g, file_name + ".dot")
+    with codecs.open(file_name + ".dot", "w", encoding="utf-8") as dot_file:
+        write_dot(g, dot_file)
 
 
 def bpmn_diagram_to_png(bpmn_diagram, file_name):
-- 
2.43.0


From 0f701cfa853d71b4dc63f4e3a2dce79c7e31bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:57 +0000
Subject: [PATCH 40/48] fix: CSV export does not follow a cycle of joins
 forever

---
 bpmn_python/bpmn_process_csv_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 67c3378..16f18c1 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -208,6 +208,7 @@ class BpmnDiagramGraphCsvExport(object):
                     outgoing_flow = bpmn_graph.get_flow_by_id(next_node[1][consts.Consts.outgoing_flow][0])
                     next_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
                     add_join = BpmnDiagramGraphCsvExport.classification_join in nodes_classification[next_node[0]] \
+                        and next_node[0] not in joins_ids \
                         and BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node, next_node)
                 for export_element in export_elements:
                     if export_element.get("Join") in joins_ids:
-- 
2.43.0


From 62a8446cd33ba5c643a3f99c831b62bdb14f610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:50 +0000
Subject: [PATCH 41/48] fix: do not import content of extension elements as
 parts of the diagram

---
 bpmn_python/bpmn_diagram_import.py | 17 +++++++++--------
 bpmn_python/bpmn_import_utils.py   | 12 ++++++++++++
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 4e1af3c..6eb7e3d 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -35,15 +35,16 @@ class BpmnDiagramGraphImport(object):
 
         document = BpmnDiagramGraphImport.read_xml_file(filepath)
         # According to BPMN 2.0 XML Schema, there's only one 'BPMNDiagram' and 'BPMNPlane'
-        diagram_element = document.getElementsByTagNameNS("*", "BPMNDiagram")[0]
-        plane_element = diagram_element.getElementsByTagNameNS("*", "BPMNPlane")[0]
+        diagram_element = utils.BpmnImportUtils.get_child_elements(document.documentElement, "BPMNDiagram")[0]
+        plane_element = utils.BpmnImportUtils.get_child_elements(diagram_element, "BPMNPlane")[0]
         BpmnDiagramGraphImport.import_diagram_and_plane_attributes(diagram_attributes, plane_attributes,
                                                                    diagram_element, plane_element)
 
         BpmnDiagramGraphImport.import_process_elements(document, diagram_graph, sequence_flows, process_elements_dict,
                                                        plane_element)
 
-        collaboration_element_list = document.getElementsByTagNameNS("*", consts.Consts.collaboration)
+        collaboration_element_list = utils.BpmnImportUtils.get_child_elements(document.documentElement,
+                                                                                consts.Consts.collaboration)
         if collaboration_element_list is not None and len(collaboration_element_list) > 0:
             # Diagram has multiple pools and lanes
             collaboration_element = collaboration_element_list[0]
@@ -159,13 +160,13 @@ class BpmnDiagramGraphImport(object):
             an ID of process, value - a dictionary of process attributes,
         :param plane_element: object representing a BPMN XML 'plane' element.
         """
-        for process_element in document.getElementsByTagNameNS("*", consts.Consts.process):
+        for process_element in utils.BpmnImportUtils.get_child_elements(document.documentElement, consts.Consts.process):
             BpmnDiagramGraphImport.import_process_element(process_elements_dict, process_element)
 
             process_id = process_element.getAttribute(consts.Consts.id)
             process_attributes = process_elements_dict[process_id]
 
-            lane_set_list = process_element.getElementsByTagNameNS("*", consts.Consts.lane_set)
+            lane_set_list = utils.BpmnImportUtils.get_child_elements(process_element, consts.Consts.lane_set)
             if lane_set_list is not None and len(lane_set_list) > 0:
                 # according to BPMN 2.0 XML Schema, there's at most one 'laneSet' element inside 'process'
                 lane_set = lane_set_list[0]
@@ -298,7 +299,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE and element.getAttribute(consts.Consts.bpmn_element) == lane_id:
                 shape_element = element
         if shape_element is not None:
-            bounds = shape_element.getElementsByTagNameNS("*", "Bounds")[0]
+            bounds = utils.BpmnImportUtils.get_child_elements(shape_element, "Bounds")[0]
             lane_attr[consts.Consts.is_horizontal] = shape_element.getAttribute(consts.Consts.is_horizontal)
             lane_attr[consts.Consts.width] = bounds.getAttribute(consts.Consts.width)
             lane_attr[consts.Consts.height] = bounds.getAttribute(consts.Consts.height)
@@ -836,7 +837,7 @@ class BpmnDiagramGraphImport(object):
         :param shape_element: object representing a BPMN XML 'BPMNShape' element.
         """
         element_id = shape_element.getAttribute(consts.Consts.bpmn_element)
-        bounds = shape_element.getElementsByTagNameNS("*", "Bounds")[0]
+        bounds = utils.BpmnImportUtils.get_child_elements(shape_element, "Bounds")[0]
         if diagram_graph.has_node(element_id):
             node = diagram_graph.node[element_id]
             node[consts.Consts.width] = bounds.getAttribute(consts.Consts.width)
@@ -875,7 +876,7 @@ class BpmnDiagramGraphImport(object):
         :param flow_element: object representing a BPMN XML 'BPMNEdge' element.
         """
         flow_id = flow_element.getAttribute(consts.Consts.bpmn_element)
-        waypoints_xml = flow_element.getElementsByTagNameNS("*", consts.Consts.waypoint)
+        waypoints_xml = utils.BpmnImportUtils.get_child_elements(flow_element, consts.Consts.waypoint)
         length = len(waypoints_xml)
 
         waypoints = [None] * length
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 9ca96e0..ca5af66 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -37,6 +37,18 @@ class BpmnImportUtils(object):
                 yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_child_elements(parent, tag_name):
+        """
+        Helper function that returns child Elements of parent with given tag name. Elements further down (e.g. content
+        of extension elements) are not searched.
+
+        :param parent: object of Element class, representing parent element,
+        :param tag_name: string with tag name without namespace.
+        """
+        return [element for element in BpmnImportUtils.iterate_elements(parent)
+                if BpmnImportUtils.remove_namespace_from_tag_name(element.tagName) == tag_name]
+
     @staticmethod
     def get_element_text(element):
         """
-- 
2.43.0


From e3d8144fb235e423d62bab604e7503e7b19b7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:07 +0000
Subject: [PATCH 42/48] fix: reject CSV sheets with an order label that occurs
 twice with different surrounding spaces

---
 bpmn_python/bpmn_process_csv_import.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 2df3875..bb147ca 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -89,6 +89,8 @@ def remove_white_spaces_in_orders(process_dict):
     for order, csv_line_dict in tmp_process_dict.items():
         del process_dict[order]
         if isinstance(order, six.string_types) and order.strip() != order:
+            if order.strip() in process_dict:
+                raise bpmn_exception.BpmnPythonError("Order occurs more than once in csv file - look for " + order.strip())
             process_dict[order.strip()] = csv_line_dict
         else:
             process_dict[str(order)] = csv_line_dict
-- 
2.43.0


From 18f7b95f9c98c527e0a6e5c2b573f9f827942cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 43/48] fix: generated IDs of shapes and edges do not repeat an
 ID of the diagram

---
 bpmn_python/bpmn_diagram_export.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 44c3fe6..01e77a1 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -535,6 +535,7 @@ class BpmnDiagramGraphExport(object):
             params = flow[2]
             BpmnDiagramGraphExport.export_flow_di_data(params, plane)
 
+        BpmnDiagramGraphExport.make_di_ids_unique(definitions, plane)
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
         try:
@@ -589,6 +590,22 @@ class BpmnDiagramGraphExport(object):
         tree.write(directory + filename, encoding='utf-8', xml_declaration=True)
 
     # Helper methods
+    @staticmethod
+    def make_di_ids_unique(definitions, plane):
+        """
+        Helper function, changes generated IDs of shapes and edges that are already used in exported document.
+
+        :param definitions: an XML element ('definitions'), root element of BPMN 2.0 document,
+        :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element.
+        """
+        di_elements = list(plane)
+        di_tags = set(element.tag for element in di_elements)
+        used_ids = set(element.get(consts.Consts.id) for element in definitions.iter() if element.tag not in di_tags)
+        for element in di_elements:
+            while element.get(consts.Consts.id) in used_ids:
+                element.set(consts.Consts.id, element.get(consts.Consts.id) + "_gui")
+            used_ids.add(element.get(consts.Consts.id))
+
     @staticmethod
     def indent(elem, level=0):
         """
-- 
2.43.0


From 1624585046f8e12dbd05c2a01b9b65fd2335b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:15 +0000
Subject: [PATCH 44/48] fix: add sequence flows to imported nodes that have no
 diagram interchange data

---
 bpmn_python/bpmn_diagram_rep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 2af2fbf..4ff4cb2 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -529,9 +529,11 @@ class BpmnDiagramGraph(object):
         flow[consts.Consts.target_ref] = target_ref_id
         source_node = self.diagram_graph.node[source_ref_id]
         target_node = self.diagram_graph.node[target_ref_id]
-        flow[consts.Consts.waypoints] = \
-            [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
-             (target_node[consts.Consts.x], target_node[consts.Consts.y])]
+        if consts.Consts.x in source_node and consts.Consts.x in target_node:
+            # imported nodes may have no Diagram Interchange data
+            flow[consts.Consts.waypoints] = \
+                [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
+                 (target_node[consts.Consts.x], target_node[consts.Consts.y])]
 
         # add target node (target_ref_id) as outgoing node from source node (source_ref_id)
         source_node[consts.Consts.outgoing_flow].append(sequence_flow_id)
-- 
2.43.0


From 8c5465b441febc71e0967b7a678583daed37284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 45/48] fix: export the positions of nodes placed by automatic
 layout that had no diagram interchange data

A node imported without a BPMNShape gets coordinates from generate_layout,
but no size, and its shape was left out of the exported file.
---
 bpmn_python/bpmn_diagram_export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 01e77a1..adc1e68 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -381,9 +381,13 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with node parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for node DI data).
         """
-        if consts.Consts.width not in params:
+        if consts.Consts.x not in params:
             # no Diagram Interchange data for this node
             return
+        if consts.Consts.width not in params:
+            # no Diagram Interchange data for this node, but a place given by automatic layout
+            params = dict(params, **{consts.Consts.width: "100", consts.Consts.height: "100",
+                                     consts.Consts.is_expanded: "false"})
         output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, node_id + "_gui")
 
-- 
2.43.0


From 858ca8af13f11d8016eff73cefbe7be4042565ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:21 +0000
Subject: [PATCH 46/48] fix: CSV export resolves skips inside branches that
 meet before the last branch of their split joins them

The goto row of a nested split kept a label that does not exist when its
branch led to a join other than that of the last branch.
---
 bpmn_python/bpmn_process_csv_export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 16f18c1..95345d6 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -152,6 +152,7 @@ class BpmnDiagramGraphCsvExport(object):
 
         if BpmnDiagramGraphCsvExport.classification_split in node_classification:
             next_node = None
+            branches_joins_ids = []
             alphabet_suffix_index = 0
             for outgoing_flow_id in outgoing_flows:
                 outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
@@ -179,18 +180,21 @@ class BpmnDiagramGraphCsvExport(object):
                          "Condition": condition, "Who": who, "Subprocess": "", "Terminated": "",
                          "Join": outgoing_node[0]})
                     next_node = outgoing_node
+                    branches_joins_ids.append(next_node[0])
                 elif outgoing_flow_id == default_flow_id:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix, "else",
                                                                           who)
                     if tmp_next_node is not None:
                         next_node = tmp_next_node
+                        branches_joins_ids.append(next_node[0])
                 else:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix,
                                                                           condition, who)
                     if tmp_next_node is not None:
                         next_node = tmp_next_node
+                        branches_joins_ids.append(next_node[0])
 
             if next_node is not None:
                 if not BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node, next_node):
@@ -211,7 +215,7 @@ class BpmnDiagramGraphCsvExport(object):
                         and next_node[0] not in joins_ids \
                         and BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node, next_node)
                 for export_element in export_elements:
-                    if export_element.get("Join") in joins_ids:
+                    if export_element.get("Join") in joins_ids + branches_joins_ids:
                         export_element["Activity"] = "goto " + prefix + str(order + 1)
                         export_element["Join"] = next_node[0]
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
-- 
2.43.0


From 155115e5e186c9eacc7a6c617c677ae3468aa72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:48 +0000
Subject: [PATCH 47/48] fix: reject the ID of an existing element for a new
 node

Adding a node with the ID of another node replaced that node and emptied its
flow lists while the flows stayed; with the ID of a process or flow the
exported file had the same ID twice.
---
 bpmn_python/bpmn_diagram_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 4ff4cb2..43f1c5f 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -255,6 +255,8 @@ class BpmnDiagramGraph(object):
         """
         if node_id is None:
             node_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
+        elif self.diagram_graph.has_node(node_id) or node_id in self.sequence_flows or node_id in self.process_elements:
+            raise bpmn_exception.BpmnPythonError("ID is already used in diagram. Value passed: " + str(node_id))
         self.diagram_graph.add_node(node_id)
         self.diagram_graph.node[node_id][consts.Consts.id] = node_id
         self.diagram_graph.node[node_id][consts.Consts.type] = node_type
-- 
2.43.0


From 0edf4676c9d6a7014a19a1c698c5ab8948525c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:44 +0000
Subject: [PATCH 48/48] fix: importing a file replaces the diagram the object
 held before

Nodes, flows and processes of an earlier diagram stayed in the object and were
mixed with those of the file; a second process sheet was refused half-way because
its order labels were in use.
---
 bpmn_python/bpmn_diagram_import.py     | 5 ++++-
 bpmn_python/bpmn_process_csv_import.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 6eb7e3d..dff3f1f 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -26,6 +26,10 @@ class BpmnDiagramGraphImport(object):
         :param filepath: string with output filepath,
         :param bpmn_diagram: an instance of BpmnDiagramGraph class.
         """
+        document = BpmnDiagramGraphImport.read_xml_file(filepath)
+
+        # The imported diagram replaces the one kept in the object so far
+        bpmn_diagram.__init__()
         diagram_graph = bpmn_diagram.diagram_graph
         sequence_flows = bpmn_diagram.sequence_flows
         process_elements_dict = bpmn_diagram.process_elements
@@ -33,7 +37,6 @@ class BpmnDiagramGraphImport(object):
         plane_attributes = bpmn_diagram.plane_attributes
         collaboration = bpmn_diagram.collaboration
 
-        document = BpmnDiagramGraphImport.read_xml_file(filepath)
         # According to BPMN 2.0 XML Schema, there's only one 'BPMNDiagram' and 'BPMNPlane'
         diagram_element = utils.BpmnImportUtils.get_child_elements(document.documentElement, "BPMNDiagram")[0]
         plane_element = utils.BpmnImportUtils.get_child_elements(diagram_element, "BPMNPlane")[0]
diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index bb147ca..9fec3c1 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -614,13 +614,15 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath: string with output filepath,
         :param bpmn_diagram: an instance of BpmnDiagramGraph class.
         """
+        process_dict = BpmnDiagramGraphCSVImport.import_csv_file_as_dict(filepath)
+
+        # The imported process replaces the diagram kept in the object so far
+        bpmn_diagram.__init__()
         sequence_flows = bpmn_diagram.sequence_flows
         process_elements_dict = bpmn_diagram.process_elements
         diagram_attributes = bpmn_diagram.diagram_attributes
         plane_attributes = bpmn_diagram.plane_attributes
 
-        process_dict = BpmnDiagramGraphCSVImport.import_csv_file_as_dict(filepath)
-
         BpmnDiagramGraphCSVImport.populate_diagram_elements_dict(diagram_attributes)
         BpmnDiagramGraphCSVImport.populate_process_elements_dict(process_elements_dict, process_dict)
         BpmnDiagramGraphCSVImport.populate_plane_elements_dict(plane_attributes)
-- 
2.43.0

