From aa795f7d68a5acb0c31a9b1d0216548d27c098b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 01/86] fix: escape text content and attribute values when
 writing XML

---
 src/autosar/xml/writer.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..91f080f 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -7,6 +7,7 @@ from typing import TextIO
 import sys
 import math
 import decimal
+from xml.sax.saxutils import escape
 import autosar.base as ar_base
 import autosar.xml.document as ar_document
 import autosar.xml.element as ar_element
@@ -72,6 +73,18 @@ class _XMLWriter:
     def _add_inline_text(self, text):
         self.fh.write(text)
 
+    def _escape_text(self, text: str) -> str:
+        """
+        Escapes character data
+        """
+        return escape(text, {'\r': '&#13;'})
+
+    def _escape_attr(self, value: str) -> str:
+        """
+        Escapes attribute value
+        """
+        return escape(str(value), {'"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
+
     def _add_child(self, tag: str, attr: TupleList = None):
         if attr:
             self._add_line(f'<{tag} {self._attr_to_str(attr)}>')
@@ -102,6 +115,7 @@ class _XMLWriter:
 
     def _add_content(self, tag: str, content: str = '', attr: TupleList = None, inline: bool = False):
         assert isinstance(content, str)
+        content = self._escape_text(content)
         if attr:
             if content:
                 text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
@@ -121,7 +135,7 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}="{self._escape_attr(elem[1])}"' for elem in attr]
         return ' '.join(parts)
 
     def _format_float(self, value: float) -> str:
@@ -705,7 +719,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.EmphasisText):
                 self._write_emphasis_text(part, inline=True)
             elif isinstance(part, ar_element.IndexEntry):
@@ -785,7 +799,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -815,7 +829,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -845,7 +859,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -925,7 +939,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Subscript):
                 self._write_subscript(part)
             elif isinstance(part, ar_element.Superscript):
-- 
2.43.0


From c004bdfa289912c4a3202b9a4cf40c2c7ae3eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 02/86] fix: support SERVICE-KIND of port interfaces in
 enumeration maps and reader

---
 src/autosar/xml/enumeration.py | 54 ++++++++++++++++++++++++++++++++++
 src/autosar/xml/reader.py      |  4 ++-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 554e614..87758f4 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1089,6 +1089,33 @@ xml_to_enum_map: dict[str, dict] = {
         "USE-ARRAY-BASE-TYPE": ServerArgImplPolicy.USE_ARRAY_BASED_TYPE,
         "USE-VOID": ServerArgImplPolicy.USE_VOID
     },
+    "ServiceKind": {
+        "ANY-STANDARDIZED": ServiceKind.ANY_STANDARDIZED,
+        "BASIC-SOFTWARE-MODE-MANAGER": ServiceKind.BASIC_SOFTWARE_MODE_MANAGER,
+        "COM-MANAGER": ServiceKind.COM_MANAGER,
+        "CRYPTO-KEY-MANAGEMENT": ServiceKind.CRYPTO_KEY_MANAGEMENT,
+        "CRYPTO-SERVICE-MANAGER": ServiceKind.CRYPTO_SERVICE_MANAGER,
+        "DEFAULT-ERROR-TRACER": ServiceKind.DEFAULT_ERROR_TRACER,
+        "DEVELOPMENT-ERROR-TRACER": ServiceKind.DEVELOPMENT_ERROR_TRACER,
+        "DIAGNOSTIC-COMMUNICATION-MANAGER": ServiceKind.DIAGNOSTIC_COMMUNICATION_MANAGER,
+        "DIAGNOSTIC-EVENT-MANAGER": ServiceKind.DIAGNOSTIC_EVENT_MANAGER,
+        "DIAGNOSTIC-LOG-AND-TRACE": ServiceKind.DIAGNOSTIC_LOG_AND_TRACE,
+        "ECU-MANAGER": ServiceKind.ECU_MANAGER,
+        "ERROR-TRACER": ServiceKind.ERROR_TRACER,
+        "FUNCTION-INHIBITION-MANAGER": ServiceKind.FUNCTION_INHIBITION_MANAGER,
+        "HARDWARE-TEST-MANAGER": ServiceKind.HARDWARE_TEST_MANAGER,
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT": ServiceKind.INTRUSION_DETECTION_SECURITY_MANAGEMENT,
+        "J-1939-DCM": ServiceKind.J1939_DCM,
+        "J-1939-REQUEST-MANAGER": ServiceKind.J1939_REQUEST_MANAGER,
+        "NON-VOLATILE-RAM-MANAGER": ServiceKind.NON_VOLATILE_RAM_MANAGER,
+        "OPERATING-SYSTEM": ServiceKind.OPERATING_SYSTEM,
+        "SECURE-ON-BOARD-COMMUNICATION": ServiceKind.SECURE_ON_BOARD_COMMUNICATION,
+        "SYNC-BASE-TIME-MANAGER": ServiceKind.SYNC_BASE_TIME_MANAGER,
+        "V-2-X-FACILITIES": ServiceKind.V2X_FACILITIES,
+        "V-2-X-MANAGEMENT": ServiceKind.V2X_MANAGEMENT,
+        "VENDOR-SPECIFIC": ServiceKind.VENDOR_SPECIFIC,
+        "WATCH-DOG-MANAGER": ServiceKind.WATCH_DOG_MANAGER
+    },
     "SupportBufferLocking": {
         "DOES-NOT-SUPPORT-BUFFER-LOCKING": SupportBufferLocking.DOES_NOT_SUPPORT_BUFFER_LOCKING,
         "SUPPORTS-BUFFER-LOCKING": SupportBufferLocking.SUPPORTS_BUFFER_LOCKING
@@ -1497,6 +1524,33 @@ enum_to_xml_map: dict[str, list] = {
         "USE-ARRAY-BASE-TYPE",  # 1
         "USE-VOID",             # 2
     ],
+    "ServiceKind": [
+        "ANY-STANDARDIZED",                         # 0
+        "BASIC-SOFTWARE-MODE-MANAGER",              # 1
+        "COM-MANAGER",                              # 2
+        "CRYPTO-SERVICE-MANAGER",                   # 3
+        "DEFAULT-ERROR-TRACER",                     # 4
+        "DEVELOPMENT-ERROR-TRACER",                 # 5
+        "DIAGNOSTIC-COMMUNICATION-MANAGER",         # 6
+        "DIAGNOSTIC-EVENT-MANAGER",                 # 7
+        "DIAGNOSTIC-LOG-AND-TRACE",                 # 8
+        "ECU-MANAGER",                              # 9
+        "FUNCTION-INHIBITION-MANAGER",              # 10
+        "J-1939-REQUEST-MANAGER",                   # 11
+        "NON-VOLATILE-RAM-MANAGER",                 # 12
+        "OPERATING-SYSTEM",                         # 13
+        "SECURE-ON-BOARD-COMMUNICATION",            # 14
+        "SYNC-BASE-TIME-MANAGER",                   # 15
+        "VENDOR-SPECIFIC",                          # 16
+        "WATCH-DOG-MANAGER",                        # 17
+        "ERROR-TRACER",                             # 18
+        "HARDWARE-TEST-MANAGER",                    # 19
+        "V-2-X-FACILITIES",                         # 20
+        "V-2-X-MANAGEMENT",                         # 21
+        "J-1939-DCM",                               # 22
+        "CRYPTO-KEY-MANAGEMENT",                    # 23
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT"   # 24
+    ],
     "SupportBufferLocking": [
         "DOES-NOT-SUPPORT-BUFFER-LOCKING",  # 0
         "SUPPORTS-BUFFER-LOCKING"           # 1
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..a724a54 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3337,7 +3337,9 @@ class Reader:
         if inner_elem is not None:
             data['is_service'] = self._read_boolean(inner_elem.text)
         xml_elements.skip('NAMESPACES')  # Not supported
-        xml_elements.skip('SERVICE-KIND')  # Implement later
+        inner_elem = xml_elements.get('SERVICE-KIND')
+        if inner_elem is not None:
+            data['service_kind'] = ar_enum.xml_to_enum('ServiceKind', inner_elem.text)
 
     def _read_nv_data_interface(self, xml_element: ElementTree.Element) -> ar_element.NvDataInterface:
         """
-- 
2.43.0


From 25d9aa9c6b51b2555e3ae853b69a91cab5d61540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 03/86] fix: write UUID attribute of all identifiable elements

---
 src/autosar/xml/writer.py | 110 +++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 91f080f..9867eda 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1602,7 +1602,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1639,7 +1639,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        self._add_child("IMPLEMENTATION-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1690,7 +1690,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1715,7 +1715,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        self._add_child("ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1745,7 +1745,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        self._add_child("APPLICATION-RECORD-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1769,7 +1769,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1794,7 +1794,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2798,7 +2798,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        self._add_child("MODE-DECLARATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2828,7 +2828,7 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        self._add_child("MODE-TRANSITION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2926,7 +2926,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        self._add_child("NV-DATA-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2951,7 +2951,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        self._add_child("PARAMETER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2976,7 +2976,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        self._add_child("SENDER-RECEIVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3030,7 +3030,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        self._add_child("APPLICATION-ERROR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3050,7 +3050,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        self._add_child("CLIENT-SERVER-OPERATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3082,7 +3082,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        self._add_child("CLIENT-SERVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3111,7 +3111,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        self._add_child("MODE-SWITCH-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3183,7 +3183,7 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3605,7 +3605,7 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        self._add_child("P-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3630,7 +3630,7 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        self._add_child("R-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3657,7 +3657,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        self._add_child("PR-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3721,7 +3721,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3735,7 +3735,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        self._add_child("SW-COMPONENT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3778,7 +3778,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        self._add_child("ASSEMBLY-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3794,7 +3794,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        self._add_child("DELEGATION-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3816,7 +3816,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3832,7 +3832,7 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3866,7 +3866,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        self._add_child("SWC-IMPLEMENTATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4123,7 +4123,7 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        self._add_child(tag, self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4200,7 +4200,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4214,7 +4214,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4231,7 +4231,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4252,7 +4252,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4282,7 +4282,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        self._add_child("INTERNAL-TRIGGERING-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4297,7 +4297,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4335,7 +4335,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        self._add_child("MODE-SWITCH-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4390,7 +4390,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        self._add_child("PARAMETER-ACCESS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4413,7 +4413,7 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        self._add_child("WAIT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4487,7 +4487,7 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        self._add_child("RUNNABLE-ENTITY", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4605,7 +4605,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4620,7 +4620,7 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        self._add_child("BACKGROUND-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4633,7 +4633,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4648,7 +4648,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        self._add_child("DATA-RECEIVED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4663,7 +4663,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        self._add_child("DATA-SEND-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4678,7 +4678,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4693,7 +4693,7 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4708,7 +4708,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        self._add_child("INIT-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4721,7 +4721,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4736,7 +4736,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        self._add_child("MODE-SWITCHED-ACK-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4751,7 +4751,7 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        self._add_child("OPERATION-INVOKED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4766,7 +4766,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4781,7 +4781,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        self._add_child("SWC-MODE-SWITCH-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4810,7 +4810,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        self._add_child("TIMING-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4827,7 +4827,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4925,7 +4925,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        self._add_child("EXCLUSIVE-AREA", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4936,7 +4936,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        self._add_child("SWC-INTERNAL-BEHAVIOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From 70d6a00610fad71a17850828c6bbba172b03795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 04/86] fix: read all element kinds and trailing text of mixed
 content

---
 src/autosar/xml/reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a724a54..70cafab 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -866,13 +866,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -923,7 +923,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -932,7 +932,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -978,7 +978,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -993,7 +993,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1009,7 +1009,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1018,7 +1018,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1123,7 +1123,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From 53aa19f7d41915c8e1dc57b61130712ad9de5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 05/86] fix: accept superscript (and line break in overview
 paragraph) as mixed content

---
 src/autosar/xml/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..b0844ff 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -595,7 +595,7 @@ class MixedContentForLongName(LanguageSpecific):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -618,7 +618,7 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -803,7 +803,7 @@ class MixedContentForParagraph(LanguageSpecific):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
-- 
2.43.0


From 8e95b49c3d2830b7f24618cbe8e32acfac2843de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 06/86] fix: accept introduction, annotations and admin data of
 identifiable elements

---
 src/autosar/xml/element.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b0844ff..b597651 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -234,13 +234,14 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union[list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
         self.category = None
-        self.admin_data = None
-        self.introduction = None
-        self.annotations = None
+        self.introduction: Union["DocumentationBlock", None] = None
+        self.annotations: Union[list["Annotation"], None] = None
         self.uuid = None
         self.admin_data: Union["AdminData", None] = None
         if desc is not None:
@@ -254,6 +255,9 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('admin_data', admin_data, AdminData)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        self._assign_optional_strict('annotations', annotations, list)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
-- 
2.43.0


From b0de47ef95510faaa824ddd75883017782a657fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 07/86] fix: read ADMIN-DATA without SDGS

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 70cafab..520e2fa 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -545,7 +545,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None:
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
-- 
2.43.0


From 026143ddc4ae5553e6a2c8aef8b181a57dac01bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 08/86] fix: write all annotations inside a single ANNOTATIONS
 element

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 9867eda..a20cc1d 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -590,10 +590,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From 07bb05add7becc3c0eccf4b00bb658662d11847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 09/86] fix: read VALIDITY of scale constraints

---
 src/autosar/xml/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 520e2fa..9091649 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1431,6 +1431,8 @@ class Reader:
         """
         data = {}
         child_elements = ChildElementMap(xml_element)
+        if "VALIDITY" in xml_element.attrib:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", xml_element.attrib["VALIDITY"])
         xml_child = child_elements.get("SHORT-LABEL")
         if xml_child is not None:
             data["label"] = xml_child.text
-- 
2.43.0


From f2bef675784960366ca2de0e1f56aacb2186c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 10/86] fix: accept list of provided com-specs in
 PRPortPrototype

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b597651..39f21ca 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4817,7 +4817,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
-- 
2.43.0


From c7bfb789bd3b5d32e48522a254ee80e224bca6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 11/86] fix: read text containing XML comments or processing
 instructions

---
 src/autosar/xml/reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 9091649..cf58c5d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -352,7 +352,7 @@ class Reader:
         Reads ARXML document file
         """
         self.document = None
-        self.xml_root = ElementTree.ElementTree().parse(file_path)
+        self.xml_root = ElementTree.ElementTree().parse(file_path, self._create_parser())
         self.file_path = file_path
         self.file_base_name = os.path.basename(file_path)
         self.observed_unsupported_elements = set()
@@ -368,7 +368,7 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         self.document = None
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -383,7 +383,7 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self.observed_unsupported_elements = set()
-        elem = ElementTree.fromstring(xml)
+        elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
         else:
@@ -395,6 +395,13 @@ class Reader:
 
     # --- Utility methods
 
+    def _create_parser(self) -> ElementTree.XMLParser:
+        """
+        Creates XML parser. Comments and processing instructions are
+        removed since they would otherwise split the text of elements.
+        """
+        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
         Reports about unprocessed child elements
-- 
2.43.0


From ac27df50ae04d04f6172a1cc79606ebafdf74db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 12/86] fix: write numbers of large magnitude and booleans as
 valid numbers

---
 src/autosar/xml/writer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index a20cc1d..1997427 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -143,21 +143,25 @@ class _XMLWriter:
         Formats a float into a printable number string.
         The fractional part will automatically be stripped if possible
         """
+        if isinstance(value, int):
+            return str(int(value))
         if math.isinf(value):
             return '-INF' if value < 0 else 'INF'
         if math.isnan(value):
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
-            return str(result)
+            is_integral = tmp == tmp.to_integral()
+            if is_integral and tmp.adjusted() < decimal.getcontext().prec:
+                return str(tmp.quantize(decimal.Decimal(1)))
+            return str(tmp.normalize())
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
         """
         Converts number to string
         """
         if isinstance(number, int):
-            return str(number)
+            return str(int(number))
         elif isinstance(number, float):
             return self._format_float(number)
         elif isinstance(number, ar_element.NumericalValue):
-- 
2.43.0


From ff94bce8fd06b7f4d78fb3d2c71d3348d2829317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 13/86] fix: write formatted numbers as valid literals without
 loss of precision

---
 src/autosar/xml/writer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1997427..82675c7 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -177,14 +177,17 @@ class _XMLWriter:
         return 'true' if value else 'false'
 
     def _format_numerical_value(self, number: ar_element.NumericalValue) -> str:
+        value = number.value
         if number.value_format in (ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL):
-            return self._format_number(number.value)
-        elif number.value_format == ar_enum.ValueFormat.HEXADECIMAL:
-            return f"0x{number.value:x}"
-        elif number.value_format == ar_enum.ValueFormat.BINARY:
-            return f"0b{number.value:b}"
+            return self._format_number(value)
+        elif number.value_format in (ar_enum.ValueFormat.HEXADECIMAL, ar_enum.ValueFormat.BINARY):
+            if not isinstance(value, int) or value < 0:
+                return self._format_number(value)  # There is only a decimal notation for these numbers
+            return f"0x{value:x}" if number.value_format == ar_enum.ValueFormat.HEXADECIMAL else f"0b{value:b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            if isinstance(value, float) and not math.isfinite(value):
+                return self._format_number(value)
+            return f"{decimal.Decimal(str(value)):e}"
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 475294abc75733c9fb4f365582ea5b7be815ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 14/86] fix: read hexadecimal and binary notation of all
 numbers

---
 src/autosar/xml/reader.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index cf58c5d..a9bd639 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -463,7 +463,7 @@ class Reader:
         Attempts to convert text to either int or float
         """
         try:
-            value = int(text)
+            value = int(text, 0) if re.match(r"\s*0[xXbB]", text) else int(text)
         except ValueError:
             try:
                 value = float(text)
@@ -1231,7 +1231,7 @@ class Reader:
             data["desc"] = self._read_multi_language_overview_paragraph(xml_child)
         xml_child = child_elements.get("MASK")
         if xml_child is not None:
-            data["mask"] = int(xml_child.text)
+            data["mask"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("LOWER-LIMIT")
         if xml_child is not None:
             limit, interval_type = self._read_limit(xml_child)
@@ -1355,7 +1355,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("CONSTR-LEVEL")
         if xml_child is not None:
-            data["level"] = int(xml_child.text)
+            data["level"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("PHYS-CONSTRS")
         if xml_child is not None:
             data["physical"] = self._read_physical_constraint(xml_child)
@@ -1670,10 +1670,10 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         bit_position = child_elements.get('BIT-POSITION')
         if bit_position is not None:
-            data['position'] = int(bit_position.text)
+            data['position'] = self._read_integer(bit_position.text)
         number_of_bits = child_elements.get('NUMBER-OF-BITS')
         if number_of_bits is not None:
-            data['num_bits'] = int(number_of_bits.text)
+            data['num_bits'] = self._read_integer(number_of_bits.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.SwBitRepresentation(**data)
 
@@ -1886,7 +1886,7 @@ class Reader:
             data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE")
         if xml_child is not None:
-            data["array_size"] = int(xml_child.text)
+            data["array_size"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE-HANDLING")
         if xml_child is not None:
             data["array_size_handling"] = ar_enum.xml_to_enum("ArraySizeHandling", xml_child.text)
@@ -2037,7 +2037,7 @@ class Reader:
             data["index_data_type_ref"] = self._read_index_data_type_ref(xml_child)
         xml_child = child_elements.get("MAX-NUMBER-OF-ELEMENTS")
         if xml_child is not None:
-            data["max_number_of_elements"] = int(xml_child.text)
+            data["max_number_of_elements"] = self._read_integer(xml_child.text)
 
     def _read_application_record_element(self, xml_element: ElementTree.Element) -> ar_element.ApplicationRecordElement:
         """
-- 
2.43.0


From 2707954ed5d1bae4661d7cc48113a5dd21585387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 15/86] fix: report any failure to read an element or package
 and carry on with the rest

---
 src/autosar/xml/element.py |  2 +-
 src/autosar/xml/reader.py  | 58 +++++++++++++++++++++++++++-----------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 39f21ca..7257ad3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3033,7 +3033,7 @@ class PackageCollection:
         """
         if isinstance(package, Package):
             if package.name in self._package_dict:
-                raise ValueError(
+                raise ar_except.DuplicateElement(
                     f"Package with SHORT-NAME '{package.name}' already exists")
             package.parent = self
             self.packages.append(package)
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a9bd639..57f6f50 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -437,6 +437,26 @@ class Reader:
         """
         raise ar_exception.ParseError(self._element_error_message(element, message))
 
+    def _handle_parse_error(self, element: ElementTree.Element, exc: Exception) -> None:
+        """
+        Prints message about failure to read an element (or raises it as parse error)
+        """
+        msg = "Parse error encountered while reading element starting on this line"
+        message = self._element_error_message(element, msg)
+        if self.stop_on_error:
+            raise ar_exception.ParseError(message) from exc
+        print(message + ":")
+        print("    " + str(exc))
+
+    def _handle_duplicate_element(self, element: ElementTree.Element, exc: ar_exception.DuplicateElement) -> None:
+        """
+        Prints message about duplicate element (or raises it)
+        """
+        message = self._element_error_message(element, str(exc))
+        if self.stop_on_error:
+            raise ar_exception.DuplicateElement(message) from exc
+        print(message)
+
     def _clean_namespace(self, namespace: str) -> None:
         """
         Removes XML namespace in place.
@@ -622,8 +642,23 @@ class Reader:
     def _read_packages(self):
         for xml_node in self.xml_root.findall('./AR-PACKAGES/*'):
             if xml_node.tag == 'AR-PACKAGE':
-                package = self._read_package(xml_node)
-                self.document.append(package)
+                self._read_package_into(self.document, xml_node)
+
+    def _read_package_into(self,
+                           parent: ar_document.Document | ar_element.Package,
+                           xml_elem: ElementTree.Element) -> None:
+        """
+        Reads AR:AR-PACKAGE and appends it to parent
+        """
+        try:
+            parent.append(self._read_package(xml_elem))
+        except Exception as exc:  # pylint: disable=broad-exception-caught
+            if self.stop_on_error:
+                raise
+            if isinstance(exc, ar_exception.DuplicateElement):
+                self._handle_duplicate_element(xml_elem, exc)
+            else:
+                self._handle_parse_error(xml_elem, exc)
 
     def _read_package(self, elem: ElementTree.Element) -> ar_element.Package:
         data = {}
@@ -663,19 +698,10 @@ class Reader:
                     element = read_method(xml_child_elem)
                     assert isinstance(element, ar_element.ARElement)
                     package.append(element)
-                except ar_exception.ParseError as exc:
-                    msg = "Parse error encountered while reading element starting on this line"
-                    message = self._element_error_message(xml_child_elem, msg)
-                    if self.stop_on_error:
-                        raise ar_exception.ParseError(message) from exc
-                    print(message + ":")
-                    print("    " + str(exc))
                 except ar_exception.DuplicateElement as exc:
-                    message = self._element_error_message(xml_child_elem,
-                                                          str(exc))
-                    if self.stop_on_error:
-                        raise ar_exception.DuplicateElement(message) from exc
-                    print(message)
+                    self._handle_duplicate_element(xml_child_elem, exc)
+                except Exception as exc:  # pylint: disable=broad-exception-caught
+                    self._handle_parse_error(xml_child_elem, exc)
             else:
                 self._report_unprocessed_element(xml_child_elem)
 
@@ -685,9 +711,7 @@ class Reader:
         Type: Utility
         """
         for xml_child_package in xml_packages.findall('./AR-PACKAGE'):
-            child_package = self._read_package(xml_child_package)
-            assert isinstance(child_package, ar_element.Package)
-            package.append(child_package)
+            self._read_package_into(package, xml_child_package)
 
     # --- Documentation elements
 
-- 
2.43.0


From 13bd3c01092e41dafb5de09849e0ea150062765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 16/86] fix: report or skip unknown children of COMPONENTS,
 EXCLUSIVE-AREA and IDENT

---
 src/autosar/xml/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 57f6f50..73f5142 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4463,7 +4463,7 @@ class Reader:
         xml_child = child_elements.get("COMPONENTS")
         if xml_child is not None:
             component_list = []
-            for xml_grand_child in xml_child.findall("./*"):
+            for xml_grand_child in xml_child.findall("./SW-COMPONENT-PROTOTYPE"):
                 component_list.append(self._read_sw_component_prototype(xml_grand_child))
             data["components"] = component_list
         xml_child = child_elements.get("CONNECTORS")
@@ -4914,6 +4914,7 @@ class Reader:
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExternalTriggeringPointIdent(**data)
 
     def _read_external_triggering_point(self, xml_element: ElementTree.Element) -> ar_element.ExternalTriggeringPoint:
@@ -4965,6 +4966,7 @@ class Reader:
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
         self._read_async_server_call_result_point_group(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPointIdent(**data)
 
     def _read_mode_access_point(self, xml_element: ElementTree.Element) -> ar_element.ModeAccessPoint:
@@ -5712,6 +5714,7 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExclusiveArea(**data)
 
     def _read_swc_internal_behavior(self, xml_element: ElementTree.Element) -> ar_element.SwcInternalBehavior:
-- 
2.43.0


From 666c80fb59032176b0a8be1b9ef2037f19436574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 17/86] fix: report value specifications which cannot be read

---
 src/autosar/xml/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 73f5142..41e7c3b 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3045,6 +3045,7 @@ class Reader:
         if read_method is not None:
             return read_method(xml_element)
         else:
+            self._report_unprocessed_element(xml_element)
             raise KeyError(f"Found no reader for '{xml_element.tag}'")
 
     def _read_constant_specification(self,
@@ -3139,7 +3140,7 @@ class Reader:
             elif xml_child.tag in ("VTF", "VG"):
                 continue  # Not supported, skip
             else:
-                print(f"Unprocessed child element in VALUE-GROUP: <{xml_child.tag}>", file=sys.stderr)
+                self._report_unprocessed_element(xml_child)
 
     def _read_value_group(self, xml_element: ElementTree.Element) -> ar_element.ValueGroup:
         """
-- 
2.43.0


From 4ac6754fed321df151e3012bc8fddff3e4e11e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 18/86] fix: raise ParseError for unreadable packages when
 stopping on error

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 41e7c3b..385e33c 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -653,7 +653,7 @@ class Reader:
         try:
             parent.append(self._read_package(xml_elem))
         except Exception as exc:  # pylint: disable=broad-exception-caught
-            if self.stop_on_error:
+            if self.stop_on_error and isinstance(exc, (ar_exception.ParseError, ar_exception.DuplicateElement)):
                 raise
             if isinstance(exc, ar_exception.DuplicateElement):
                 self._handle_duplicate_element(xml_elem, exc)
-- 
2.43.0


From ca745fe513efa42b97e821cc67523449bfbc0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 19/86] fix: do not carry schema version or file name over to
 the next read

---
 src/autosar/xml/reader.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 385e33c..685d5a1 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -357,10 +357,7 @@ class Reader:
         self.file_base_name = os.path.basename(file_path)
         self.observed_unsupported_elements = set()
         self.stop_on_error = stop_on_error
-        self._clean_namespace('http://autosar.org/schema/r4.0')
-        self._read_root_element()
-        self._read_packages()
-        return self.document
+        return self._read_document()
 
     def read_str(self, xml: str, stop_on_error: bool = False) -> None | ar_document.Document:
         """
@@ -372,10 +369,7 @@ class Reader:
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
-        self._clean_namespace('http://autosar.org/schema/r4.0')
-        self._read_root_element()
-        self._read_packages()
-        return self.document
+        return self._read_document()
 
     def read_str_elem(self, xml: str, type_name: str | None = None) -> None | ar_element.ARObject:
         """
@@ -383,6 +377,8 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self.observed_unsupported_elements = set()
+        self.file_path = None
+        self.file_base_name = None
         elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
@@ -395,6 +391,20 @@ class Reader:
 
     # --- Utility methods
 
+    def _read_document(self) -> ar_document.Document:
+        """
+        Reads document from XML root. The schema version of the document
+        applies to that document only.
+        """
+        schema_version = self.schema_version
+        try:
+            self._clean_namespace('http://autosar.org/schema/r4.0')
+            self._read_root_element()
+            self._read_packages()
+        finally:
+            self.schema_version = schema_version
+        return self.document
+
     def _create_parser(self) -> ElementTree.XMLParser:
         """
         Creates XML parser. Comments and processing instructions are
-- 
2.43.0


From c09f9c444d27da31f7438447d5742733398880e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 20/86] fix: do not carry schema version over to the next
 write, close file when writing fails

---
 src/autosar/xml/writer.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 82675c7..b7342a6 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -432,8 +432,10 @@ class Writer(_XMLWriter):
         Serialized the document to file
         """
         self._open(file_path)
-        self._write_document(document)
-        self._close()
+        try:
+            self._write_document(document)
+        finally:
+            self._close()
 
     def write_str_elem(self, elem: ar_element.ARObject, tag: str | None = None):
         """
@@ -457,13 +459,15 @@ class Writer(_XMLWriter):
         Writes single ARXML element to file
         """
         self._open(file_path)
-        class_name = elem.__class__.__name__
-        write_method = self.switcher_collectable.get(class_name, None)
-        if write_method is not None:
-            write_method(elem)
-        else:
-            raise NotImplementedError(f"Found no writer for {class_name}")
-        self._close()
+        try:
+            class_name = elem.__class__.__name__
+            write_method = self.switcher_collectable.get(class_name, None)
+            if write_method is not None:
+                write_method(elem)
+            else:
+                raise NotImplementedError(f"Found no writer for {class_name}")
+        finally:
+            self._close()
 
     # Abstract base classes
 
@@ -517,7 +521,6 @@ class Writer(_XMLWriter):
     # AUTOSAR Document
 
     def _write_document(self, document: ar_document.Document, skip_root_attr: bool = False):
-        self.schema_version = document.schema_version
         self._add_line('<?xml version="1.0" encoding="utf-8"?>')
         if skip_root_attr:
             self._add_child("AUTOSAR")
@@ -527,7 +530,12 @@ class Writer(_XMLWriter):
                                         ('xmlns', 'http://autosar.org/schema/r4.0'),
                                         ('xmlns:xsi', 'http://www.w3.org/2001/XMLSchema-instance')])
         if len(document.packages) > 0:
-            self._write_packages(document.packages)
+            schema_version = self.schema_version
+            self.schema_version = document.schema_version
+            try:
+                self._write_packages(document.packages)
+            finally:
+                self.schema_version = schema_version
         self._leave_child()
 
     def _write_packages(self, packages: list[ar_element.Package]):
-- 
2.43.0


From 09d7142367fbc3234090950a28942b4b82a16c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 21/86] fix: set parent of all contained elements so that they
 can be referenced

---
 src/autosar/xml/element.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7257ad3..5495b52 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -470,6 +470,7 @@ class Implementation(ARElement):
         Appends code descriptor to internal list of descriptors
         """
         if isinstance(code_descriptors, Code):
+            code_descriptors.parent = self
             self.code_descriptors.append(code_descriptors)
         else:
             raise TypeError("code_descriptors must be of type Code")
@@ -1929,6 +1930,7 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -1985,6 +1987,7 @@ class ImplementationDataType(AutosarDataType):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -2228,6 +2231,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if self.element is not None:
+            self.element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2288,6 +2293,7 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         Appends element to elements list
         """
         if isinstance(element, ApplicationRecordElement):
+            element.parent = self
             self.elements.append(element)
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
@@ -3269,7 +3275,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
@@ -3673,6 +3679,7 @@ class ClientServerOperation(Identifiable):
         Appends argument to internal list of arguments
         """
         if isinstance(argument, ArgumentDataPrototype):
+            argument.parent = self
             self.arguments.append(argument)
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
@@ -3865,6 +3872,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if self.mode_group is not None:
+            self.mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
-- 
2.43.0


From 28a0a7b9247641a15879b5b374abc0971156ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 22/86] fix: accept single possible error and list of error
 reference strings

---
 src/autosar/xml/element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 5495b52..ad81369 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3659,6 +3659,8 @@ class ClientServerOperation(Identifiable):
                 self.append_possible_error_ref(ApplicationErrorRef(possible_error_refs))
             elif isinstance(possible_error_refs, list):
                 for possible_error_ref in possible_error_refs:
+                    if isinstance(possible_error_ref, str):
+                        possible_error_ref = ApplicationErrorRef(possible_error_ref)
                     self.append_possible_error_ref(possible_error_ref)
             else:
                 msg = f"possible_error_refs: Invalid type '{str(type(possible_error_refs))}'"
@@ -3786,7 +3788,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
-- 
2.43.0


From 2cf737caf16d8fd4b9abf18f3dc059f49b2d019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 23/86] fix: raise error instead of returning it when creating
 duplicate package

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ad81369..3666911 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2897,7 +2897,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3073,7 +3073,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From 303704bbe90b59739eef252f8cdc217812f686a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 24/86] fix: do not fail on or ignore the part of a reference
 that is inside an element

---
 src/autosar/xml/element.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3666911..832fa6c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -172,6 +172,15 @@ class PositiveIntegerValue:
         else:
             raise TypeError(f"Unexpected type for value {str(type(value))}")
 
+
+def _find_rest(item: Any, ref: str) -> Any:
+    """
+    Finds what the remaining part of a reference refers to inside item (the item itself if there isn't any)
+    """
+    if item is None or len(ref) == 0:
+        return item
+    return item.find(ref) if hasattr(item, "find") else None
+
 # Base classes
 
 
@@ -2004,8 +2013,8 @@ class ImplementationDataType(AutosarDataType):
         """
         Finds item by reference
         """
-        assert "/" not in ref
-        return self._find_by_name(self.sub_elements, ref)
+        parts = ref.partition('/')
+        return _find_rest(self._find_by_name(self.sub_elements, parts[0]), parts[2])
 
 
 class DataPrototype(Identifiable):
@@ -2911,11 +2920,7 @@ class Package(CollectableElement):
         if ref.startswith('/'):
             ref = ref[1:]
         parts = ref.partition('/')
-        item = self._collection_map.get(parts[0], None)
-        if item is not None:
-            if len(parts[2]) > 0:
-                return item.find(parts[2])
-        return item
+        return _find_rest(self._collection_map.get(parts[0], None), parts[2])
 
     def filter(self, *names: str) -> Iterator[ARElement]:
         """
@@ -4936,7 +4941,7 @@ class SwComponentType(ARElement, Searchable):
         parts = ref.partition('/')
         for elem in self.ports:
             if elem.name == parts[0]:
-                return elem
+                return _find_rest(elem, parts[2])
         return None
 
     def create_p_port(self,
@@ -5410,10 +5415,10 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         parts = ref.partition('/')
         for elem in self.components:
             if elem.name == parts[0]:
-                return elem
+                return _find_rest(elem, parts[2])
         for elem in self.connectors:
             if elem.name == parts[0]:
-                return elem
+                return _find_rest(elem, parts[2])
         return super().find(ref)
 
     def create_component_prototype(self,
-- 
2.43.0


From 2abf92818f7de13c25662f736dbe0eb43da76fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 25/86] fix: raise error when appending something else than a
 package to a document

---
 src/autosar/xml/element.py   | 2 ++
 src/autosar/xml/workspace.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 832fa6c..b257f8b 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3049,6 +3049,8 @@ class PackageCollection:
             package.parent = self
             self.packages.append(package)
             self._package_dict[package.name] = package
+        else:
+            raise TypeError(f"Invalid type {str(type(package))}")
 
     def find(self, ref: str | BaseRef) -> Any:
         """
diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..88745dc 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -236,7 +236,7 @@ class Workspace(ar_element.PackageCollection):
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+                document.append(package)
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
-- 
2.43.0


From 3a3a04ef626a46611d68587f7193b0ddc0a7835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 26/86] fix: set parent of internal behavior given to
 constructor

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b257f8b..94cac84 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5171,6 +5171,8 @@ class AtomicSoftwareComponentType(SwComponentType):
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
         self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        if self._internal_behavior is not None:
+            self._internal_behavior.parent = self
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
 
     @property
-- 
2.43.0


From 40ad0319a5f1d160df7c55670205678a34871fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 27/86] fix: do not lose mode group of access point behind
 unknown element

---
 src/autosar/xml/reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 685d5a1..8c24b8a 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4991,12 +4991,14 @@ class Reader:
         if xml_child is not None:
             data["ident"] = self._read_mode_access_point_ident(xml_child)
         xml_child = child_elements.get("MODE-GROUP-IREF")
-        if xml_child is not None and len(xml_child) > 0:
-            xml_grand_child = xml_child[0]
-            if xml_grand_child.tag == "P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
-                data["mode_group"] = self._read_p_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
-            elif xml_grand_child.tag == "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
-                data["mode_group"] = self._read_r_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
+        if xml_child is not None:
+            for xml_grand_child in xml_child:
+                if xml_grand_child.tag == "P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
+                    data["mode_group"] = self._read_p_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
+                elif xml_grand_child.tag == "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
+                    data["mode_group"] = self._read_r_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         child_elements.skip("VARIATION-POINT")
         self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPoint(**data)
-- 
2.43.0


From 374142d32a365dff3384dfd53857301e6b18ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 28/86] fix: use value of physical dimension reference given as
 string

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 94cac84..cc31b2e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1555,7 +1555,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
-- 
2.43.0


From 16622eabe9e9436245a1e325c8a15d7d5916fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 29/86] fix: do not split unit name given as string into its
 characters

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index cc31b2e..5951ec5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -991,7 +991,7 @@ class SingleLanguageUnitNames(MixedContentForUnitNames):
     def __init__(self, parts: str | list | None = None) -> None:
         super().__init__()
         if parts is not None:
-            if isinstance(parts, Iterable):
+            if isinstance(parts, Iterable) and not isinstance(parts, str):
                 for part in parts:
                     self.append(part)
             else:
-- 
2.43.0


From e966316e1fa06541e9e73b496ef94498758743d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 30/86] fix: check type of references given to compu method,
 constraint and data type map

---
 src/autosar/xml/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 5951ec5..61974c8 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1285,7 +1285,8 @@ class CompuMethod(ARElement):
         super().__init__(name, **kwargs)
         self.int_to_phys = int_to_phys        # .COMPU-INTERNAL-TO-PHYS
         self.phys_to_int = phys_to_int        # .COMPU-PHYS-TO-INTERNAL
-        self.unit_ref = unit_ref              # .UNIT-REF
+        self.unit_ref: UnitRef | None = None  # .UNIT-REF
+        self._assign_optional('unit_ref', unit_ref, UnitRef)
         self.display_format = display_format  # .DISPLAY-FORMAT
 
     def ref(self) -> CompuMethodRef | None:
@@ -1428,7 +1429,8 @@ class PhysicalConstraint(ConstraintBase):
                          monotony,
                          lower_limit_type,
                          upper_limit_type)
-        self.unit_ref = unit_ref
+        self.unit_ref: UnitRef | None = None  # .UNIT-REF
+        self._assign_optional('unit_ref', unit_ref, UnitRef)
 
 
 class DataConstraintRule(ARObject):
@@ -2335,8 +2337,10 @@ class DataTypeMap(ARObject):
                  appl_data_type_ref: ApplicationDataTypeRef | None = None,
                  impl_data_type_ref: ImplementationDataTypeRef | None = None,
                  ) -> None:
-        self.appl_data_type_ref = appl_data_type_ref   # .APPLICATION-DATA-TYPE-REF
-        self.impl_data_type_ref = impl_data_type_ref   # .IMPLEMENTATION-DATA-TYPE-REF
+        self.appl_data_type_ref: ApplicationDataTypeRef | None = None  # .APPLICATION-DATA-TYPE-REF
+        self.impl_data_type_ref: ImplementationDataTypeRef | None = None  # .IMPLEMENTATION-DATA-TYPE-REF
+        self._assign_optional('appl_data_type_ref', appl_data_type_ref, ApplicationDataTypeRef)
+        self._assign_optional('impl_data_type_ref', impl_data_type_ref, ImplementationDataTypeRef)
 
 
 class DataTypeMappingSet(ARElement):
-- 
2.43.0


From db3b69338891b4971b376dc249900bd41dcbf860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 31/86] fix: raise error instead of silently ignoring argument
 of unsupported type

---
 src/autosar/xml/element.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 61974c8..508543e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1203,6 +1203,8 @@ class Computation(ARObject):
             self.default_value = default_value
         elif isinstance(default_value, (int, float, str)):
             self.default_value = CompuConst(default_value)
+        elif default_value is not None:
+            raise TypeError(f"default_value: Invalid type '{str(type(default_value))}'")
 
     @classmethod
     def make_value_table(cls: "Computation",
@@ -2298,6 +2300,8 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
                 self.append(elements)
             elif isinstance(elements, list):
                 self.extend(elements)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ApplicationRecordElement) -> None:
         """
@@ -2457,6 +2461,8 @@ class SwValues(ARObject):
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
+            else:
+                raise TypeError(f"values: Invalid type '{str(type(values))}'")
 
     def append(self, value: SwValueElement) -> None:
         """
@@ -2719,6 +2725,8 @@ class ArrayValueSpecification(ValueSpecification):
             elif isinstance(elements, list):
                 for element in elements:
                     self.append(element)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ValueSpecificationElement):
         """
@@ -2747,6 +2755,8 @@ class RecordValueSpecification(ValueSpecification):
             elif isinstance(fields, list):
                 for field in fields:
                     self.append(field)
+            else:
+                raise TypeError(f"fields: Invalid type '{str(type(fields))}'")
 
     def append(self, field: ValueSpecificationElement):
         """
@@ -3410,7 +3420,7 @@ class SenderReceiverInterface(DataInterface):
                 for data_element in data_elements:
                     self.append_data_element(data_element)
             else:
-                msg = f"data_elements: Invalid type '{str(type(data_element))}'"
+                msg = f"data_elements: Invalid type '{str(type(data_elements))}'"
                 raise TypeError(msg + ". Expected 'VariableDataPrototype' or list[VariableDataPrototype]")
         if invalidation_policies is not None:
             if isinstance(invalidation_policies, InvalidationPolicy):
@@ -5784,6 +5794,8 @@ class ArVariableInImplementationDataInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError(f"context_data_prototype_refs: Invalid type '{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: AbstractImplementationDataTypeElementRef):
         """
@@ -5830,6 +5842,8 @@ class VariableInAtomicSWCTypeInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError(f"context_data_prototype_refs: Invalid type '{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: ApplicationCompositeElementDataPrototypeRef):
         """
@@ -6057,6 +6071,9 @@ class ExecutableEntity(Identifiable):
             elif isinstance(exclusive_area_nesting_order, list):
                 for elem in exclusive_area_nesting_order:
                     self.append_exclusive_area_nesting_order(elem)
+            else:
+                raise TypeError("exclusive_area_nesting_order: "
+                                f"Invalid type '{str(type(exclusive_area_nesting_order))}'")
         self._assign_optional("minimum_start_interval", minimum_start_interval, float)
         self._assign_optional("reentrancy_level", reentrancy_level, ar_enum.ReentrancyLevel)
         if runs_insides is not None:
@@ -7170,6 +7187,8 @@ class RteEvent(Identifiable):
             elif isinstance(disabled_modes, list):
                 for disabled_mode in disabled_modes:
                     self.append_disabled_mode(disabled_mode)
+            else:
+                raise TypeError(f"disabled_modes: Invalid type '{str(type(disabled_modes))}'")
         self._assign_optional("start_on_event", start_on_event, RunnableEntityRef)
 
     def append_disabled_mode(self, disabled_mode: RModeInAtomicSwcInstanceRef) -> None:
-- 
2.43.0


From 6814cbf919e7a1495a70b9d60fd85505bbcfb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 32/86] fix: do not lose references given to create_runnable
 together with names

---
 src/autosar/xml/element.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 508543e..93f7f9f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8060,24 +8060,18 @@ class SwcInternalBehavior(InternalBehavior):
         if isinstance(symbol, str) and len(symbol) == 0:
             symbol = name
         if can_enter_leave is not None:
-            names: dict[str, bool] = {}
-            if isinstance(can_enter_leave, str):
-                names[can_enter_leave] = False
-            elif isinstance(can_enter_leave, Iterable):
-                for elem in can_enter_leave:
-                    if isinstance(elem, str):
-                        names[elem] = False
-            if names:
-                exclusive_area_refs: ExclusiveAreaRef = []
-                for area in self.exclusive_areas:
-                    if area.name in names:
-                        names[area.name] = True  # Marks it as handled
-                        exclusive_area_refs.append(area.ref())
-                for key, value in names.items():
-                    if not value:
-                        raise ValueError(f"can_enter_leave: '{key}' does not name an exclusive area in "
+            if isinstance(can_enter_leave, str) or not isinstance(can_enter_leave, Iterable):
+                can_enter_leave = [can_enter_leave]
+            exclusive_area_refs: list[ExclusiveAreaRefConditional | ExclusiveAreaRef] = []
+            for elem in can_enter_leave:
+                if isinstance(elem, str):
+                    area = self._find_by_name(self.exclusive_areas, elem)
+                    if area is None:
+                        raise ValueError(f"can_enter_leave: '{elem}' does not name an exclusive area in "
                                          "this SwcInternalBehavior object")
-                can_enter_leave = exclusive_area_refs
+                    elem = area.ref()
+                exclusive_area_refs.append(elem)
+            can_enter_leave = exclusive_area_refs
 
         data = {"can_be_invoked_concurrently": can_be_invoked_concurrently,
                 "minimum_start_interval": minimum_start_interval,
-- 
2.43.0


From 6acedb6f86996efff96175c02b4e9af1b9ac7908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 33/86] fix: do not lose port API option without port

---
 src/autosar/xml/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 93f7f9f..46fee66 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8027,9 +8027,9 @@ class SwcInternalBehavior(InternalBehavior):
         Generation options for port-related calls in the RTE.
         """
         if isinstance(element, PortApiOption):
-            if element.port is not None:
-                parts = str(element.port).split("/")
-                self.port_api_options[parts[-1]] = element
+            # The empty string is used for an option without port
+            port_name = "" if element.port is None else str(element.port).split("/")[-1]
+            self.port_api_options[port_name] = element
         else:
             raise TypeError(f"element: Expected type PortApiOption, got '{str(type(element))}'")
 
-- 
2.43.0


From 6432babdc899a07b4ee184258853e030ada0fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 34/86] fix: write numbers given as bool as numbers

---
 src/autosar/xml/base.py   |  2 +-
 src/autosar/xml/writer.py | 18 +++++-------------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 06d67fe..47bb6ca 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -151,7 +151,7 @@ class ARObject:
             raise TypeError(f"Invalid type for '{attr_name}'. Expected int, got '{str(type(value))}'")
         if value < 0:
             raise ValueError(f"Positive integer expected: {value}")
-        setattr(self, attr_name, value)
+        setattr(self, attr_name, int(value))
 
     def _find_by_name(self, elements: list, name: str):
         """
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index b7342a6..1d8b4da 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1064,10 +1064,8 @@ class Writer(_XMLWriter):
         assert limit is not None
         assert limit_type is not None
         attr: TupleList = [("INTERVAL-TYPE", ar_enum.enum_to_xml(limit_type))]
-        if isinstance(limit, float):
-            text = self._format_float(limit)
-        elif isinstance(limit, int):
-            text = str(limit)
+        if isinstance(limit, (int, float)):
+            text = self._format_number(limit)
         else:
             raise TypeError(f"Unsupported type: {str(type(limit))}")
         self._add_content(tag, text, attr)
@@ -1082,10 +1080,8 @@ class Writer(_XMLWriter):
         self._add_child(tag)
         if isinstance(elem.value, str):
             self._add_content("VT", elem.value)
-        elif isinstance(elem.value, float):
-            self._add_content("V", self._format_float(elem.value))
-        elif isinstance(elem.value, int):
-            self._add_content("V", str(elem.value))
+        elif isinstance(elem.value, (int, float)):
+            self._add_content("V", self._format_number(elem.value))
         else:
             raise TypeError(f"Unsupported type: {str(type(elem.value))}")
         self._leave_child()
@@ -1115,11 +1111,7 @@ class Writer(_XMLWriter):
     def _write_numerator_denominator_values(self, value: int | float | tuple):
         if isinstance(value, tuple):
             for inner_value in value:
-                if isinstance(inner_value, float):
-                    content = self._format_float(inner_value)
-                else:
-                    content = str(inner_value)
-                self._add_content('V', content)
+                self._add_content('V', self._format_number(inner_value))
         else:
             if isinstance(value, float):
                 content = self._format_float(value)
-- 
2.43.0


From 8e64422159e5ff83546f2a146e85bd1de6bce526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 35/86] fix: check type of values instead of writing an invalid
 document

---
 src/autosar/xml/base.py    |  2 +-
 src/autosar/xml/element.py | 49 ++++++++++++++++++++++++--------------
 src/autosar/xml/writer.py  |  4 ++--
 3 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 47bb6ca..3846cb5 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -76,7 +76,7 @@ class ARObject:
         to a specific regular expression
         """
         if isinstance(value, int):
-            pass
+            value = int(value)
         elif isinstance(value, str):
             match = pattern.match(value)
             if match is None:
diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 46fee66..7993cb8 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -383,8 +383,8 @@ class DataFilter(ARObject):
         self._assign_optional("mask", mask, int)  # .MASK
         self._assign_optional("max_val", max_val, int)  # .MAX
         self._assign_optional("min_val", min_val, int)  # .MIN
-        self._assign_optional("offset", offset, int)  # .OFFSET
-        self._assign_optional("period", period, int)  # .PERIOD
+        self._assign_optional_positive_int("offset", offset)  # .OFFSET
+        self._assign_optional_positive_int("period", period)  # .PERIOD
         self._assign_optional("x", x, int)  # .X
 
 
@@ -514,8 +514,10 @@ class EmphasisText(ARObject):
                  type: ar_enum.EmphasisType = None) -> None:  # pylint: disable=redefined-builtin
         self.elements = []
         self.color = color  # Attribute @COLOR
-        self.font = font  # Attribute @FONT
-        self.type = type  # Attribute @TYPE
+        self.font: ar_enum.EmphasisFont | None = None  # Attribute @FONT
+        self.type: ar_enum.EmphasisType | None = None  # Attribute @TYPE
+        self._assign_optional('font', font, ar_enum.EmphasisFont)
+        self._assign_optional('type', type, ar_enum.EmphasisType)
         if elements is not None:
             if isinstance(elements, str):
                 self.elements.append(elements)
@@ -941,8 +943,10 @@ class MultiLanguageVerbatim(Paginateable):
                  **kwargs) -> None:
         super().__init__(**kwargs)
         self.allow_break = allow_break  # Attribute 'ALLOW-BREAK'
-        self.float = float  # Attribte 'FLOAT'
-        self.page_wide = page_wide  # Attribute 'PGWIDE'
+        self.float: ar_enum.Float | None = None  # Attribte 'FLOAT'
+        self.page_wide: ar_enum.PageWide | None = None  # Attribute 'PGWIDE'
+        self._assign_optional('float', float, ar_enum.Float)
+        self._assign_optional('page_wide', page_wide, ar_enum.PageWide)
         self.help_entry = help_entry  # Attribute 'HELP-ENTRY'
         self.elements: list[LanguageVerbatim] = []
         if element is not None:
@@ -1155,13 +1159,16 @@ class CompuScale(ARObject):
                  inverse_value: CompuConst | None = None,
                  lower_limit_type: ar_enum.IntervalType = ar_enum.IntervalType.CLOSED,
                  upper_limit_type: ar_enum.IntervalType = ar_enum.IntervalType.CLOSED) -> None:
+        if content is not None and not isinstance(content, (CompuConst, CompuRational)):
+            raise TypeError(f"Invalid type for 'content': {str(type(content))}")
         self.content = content                      # CHOICE(COMPU-SCALE-CONSTANT-CONTENTS, COMPU-SCALE-RATIONAL-FORMULA) # noqa E501 pylint: disable=C0301
         self.lower_limit = lower_limit              # .LOWER-LIMIT
         self.upper_limit = upper_limit              # .UPPER-LIMIT
         self.label = label                          # .SHORT-LABEL
         self.symbol = symbol                        # .SYMBOL
         self.desc = desc                            # .DESC
-        self.mask = mask                            # .MASK
+        self.mask: int | None = None                # .MASK
+        self._assign_optional_positive_int('mask', mask)
         self.inverse_value: CompuConst | None = None  # .COMPU-INVERSE-VALUE
         if inverse_value is not None:
             if isinstance(inverse_value, CompuConst):
@@ -1358,7 +1365,8 @@ class ScaleConstraint(LimitObject):
         super().__init__(lower_limit, upper_limit, lower_limit_type, upper_limit_type)
         self.label = label
         self.desc = desc
-        self.validity = validity
+        self.validity: ar_enum.ScaleConstraintValidity | None = None
+        self._assign_optional('validity', validity, ar_enum.ScaleConstraintValidity)
 
 
 class ConstraintBase(LimitObject):
@@ -1376,10 +1384,11 @@ class ConstraintBase(LimitObject):
                  lower_limit_type: ar_enum.IntervalType = ar_enum.IntervalType.CLOSED,
                  upper_limit_type: ar_enum.IntervalType = ar_enum.IntervalType.CLOSED) -> None:
         super().__init__(lower_limit, upper_limit, lower_limit_type, upper_limit_type)
-        self.scale_constrs = list(scale_constrs) if scale_constrs else []
+        self.scale_constrs = list(scale_constrs) if scale_constrs is not None else []
         self.max_gradient = max_gradient
         self.max_diff = max_diff
-        self.monotony = monotony
+        self.monotony: ar_enum.Monotony | None = None
+        self._assign_optional('monotony', monotony, ar_enum.Monotony)
 
 
 class InternalConstraint(ConstraintBase):
@@ -1447,7 +1456,8 @@ class DataConstraintRule(ARObject):
                  level: int | None = None) -> None:
         self.internal = internal   # .INTERNAL-CONSTRS
         self.physical = physical   # .PHYS-CONSTRS
-        self.level = level         # .CONSTR-LEVEL
+        self.level: int | None = None  # .CONSTR-LEVEL
+        self._assign_optional_strict('level', level, int)
 
 
 class DataConstraint(ARElement):
@@ -1611,12 +1621,16 @@ class SwBaseType(BaseType):
                  native_declaration: str | None = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
-        self.size = size
-        self.max_size = max_size
+        self.size: int | None = None
+        self.max_size: int | None = None
         self.encoding = encoding
-        self.alignment = alignment
-        self.byte_order = byte_order
+        self.alignment: int | None = None
+        self.byte_order: ar_enum.ByteOrder | None = None
         self.native_declaration = native_declaration
+        self._assign_optional_positive_int('size', size)
+        self._assign_optional_positive_int('max_size', max_size)
+        self._assign_optional_positive_int('alignment', alignment)
+        self._assign_optional('byte_order', byte_order, ar_enum.ByteOrder)
 
     def ref(self) -> SwBaseTypeRef | None:
         """
@@ -2701,9 +2715,8 @@ class NotAvailableValueSpecification(ValueSpecification):
                  default_pattern_format: ar_enum.ValueFormat = ar_enum.ValueFormat.DEFAULT
                  ) -> None:
         super().__init__(label)
-        if isinstance(default_pattern, int) and default_pattern < 0:
-            raise ValueError("default_pattern must be a positive integer")
-        self.default_pattern = default_pattern
+        self.default_pattern: int | None = None
+        self._assign_optional_positive_int("default_pattern", default_pattern)
         self.default_pattern_format = default_pattern_format  # Currently not used
 
 
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1d8b4da..110603f 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1161,7 +1161,7 @@ class Writer(_XMLWriter):
             return
         self._add_child(tag)
         if elem.level is not None:
-            self._add_content("CONSTR-LEVEL", str(elem.level))
+            self._add_content("CONSTR-LEVEL", self._format_number(elem.level))
         if elem.physical is not None:
             self._write_physical_constraint(elem.physical)
         if elem.internal is not None:
@@ -3049,7 +3049,7 @@ class Writer(_XMLWriter):
         Writes group AR:APPLICATION-ERROR
         """
         if elem.error_code is not None:
-            self._add_content("ERROR-CODE", str(elem.error_code))
+            self._add_content("ERROR-CODE", self._format_number(elem.error_code))
 
     def _write_client_server_operation(self, elem: ar_element.ClientServerOperation) -> None:
         """
-- 
2.43.0


From b39dd6759dc7f53d49e2a6afd452aab925a5a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 36/86] fix: read empty text values, report text values that
 are not read

---
 src/autosar/xml/reader.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 8c24b8a..4c576f8 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1316,7 +1316,7 @@ class Reader:
         if v_xml is not None:
             value = self._read_number(v_xml.text)
         elif vt_xml is not None:
-            value = vt_xml.text
+            value = vt_xml.text or ""
         else:
             raise ar_exception.ParseError("COMPU-CONST without value isn't supported")
         return ar_element.CompuConst(value)
@@ -2896,7 +2896,7 @@ class Reader:
         """
         xml_child = child_elements.get("VALUE")
         if xml_child is not None:
-            data["value"] = xml_child.text
+            data["value"] = xml_child.text or ""
 
     def _read_numerical_value_specification(self,
                                             xml_element: ElementTree.Element
@@ -3136,7 +3136,7 @@ class Reader:
         data["values"] = values
         for xml_child in xml_child_list:
             if xml_child.tag == "VT":
-                values.append(xml_child.text)
+                values.append(xml_child.text or "")
             elif xml_child.tag == "V":
                 number = ar_element.NumericalValue(xml_child.text)
                 if number.value_format in (ar_enum.ValueFormat.HEXADECIMAL,
@@ -3147,8 +3147,6 @@ class Reader:
                     values.append(number.value)
             elif xml_child.tag == "VG":
                 values.append(self._read_value_group(xml_child))
-            elif xml_child.tag in ("VTF", "VG"):
-                continue  # Not supported, skip
             else:
                 self._report_unprocessed_element(xml_child)
 
-- 
2.43.0


From 0264e8d3ba05e9d398f444a4c52b104046288325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 37/86] fix: create_document without packages raised TypeError

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 88745dc..1ffa75c 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -27,7 +27,7 @@ class DocumentConfig:
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
-- 
2.43.0


From 735394aceefc7783c9c9acbb9ea7d3ab0c02bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 38/86] fix: create_document_mapping raised for a single suffix
 filter given as string

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 1ffa75c..bb637c3 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -47,7 +47,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
-- 
2.43.0


From e8c423a5a62425d7d22ea905d568f175adac3331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 39/86] fix: BehaviorSettings.set_value overwrote methods

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7993cb8..12af11d 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3020,7 +3020,7 @@ class BehaviorSettings:
         """
         Updates a single value with error check
         """
-        if hasattr(self, name):
+        if name in vars(self):
             if not isinstance(value, str):
                 raise TypeError(f"value: Expected string type. Got {str(type(value))}")
             setattr(self, name, value)
-- 
2.43.0


From 4db84838e243e94fbfea74ef0efc2042905e92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 40/86] fix: a base_ref without leading slash was joined twice
 and gave relative references

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index bb637c3..d251b14 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -69,7 +69,7 @@ class Namespace:
                 package_role = role_name[1:]
             else:
                 package_role = ar_enum.str_to_package_role(role_name)
-            abs_path = posixpath.join(self.base_ref, rel_path)
+            abs_path = posixpath.join("/", self.base_ref, rel_path)
             self.package_map[package_role] = abs_path
 
 
-- 
2.43.0


From c72d7363568b658484e9c0275e6b272f050bacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 41/86] fix: package_ref of a document mapping in a config file
 was accepted with any type

---
 src/autosar/xml/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index d251b14..e3e6042 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -299,6 +299,8 @@ class Workspace(ar_element.PackageCollection):
         elem_names: list[str] = []
         if package_ref is None:
             raise KeyError("A document mapping must define 'package_ref'")
+        if not isinstance(package_ref, str):
+            raise ValueError(f"package_ref: Invalid type '{str(type(package_ref))}'")
         value = mapping.get("element_types")
         if value is None:
             raise KeyError("A document mapping must define 'element_types'")
-- 
2.43.0


From e25187e75834161fbfb9f5a80e1b6615c0b7e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 42/86] fix: write_documents moved packages and elements out of
 the workspace

Nested packages were written as top-level packages, references of elements
changed by writing, and a second call raised DuplicateElement.
---
 src/autosar/xml/workspace.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index e3e6042..bbcfdca 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -1,6 +1,7 @@
 """
 AUTOSAR XML Workspace
 """
+import copy
 import posixpath
 import os
 from typing import Any
@@ -227,16 +228,22 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
+        document_config.document = document
         file_path = document_config.file_path
-        package_refs = document_config.package_refs
-        document.schema_version = schema_version
-        for package_ref in package_refs:
+        package_map: dict[str, ar_element.Package] = {}
+        for package_ref in document_config.package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-                document.append(package)
+                package_map[str(package.ref())] = package
+        for package_ref, package in package_map.items():
+            if any(package_ref.startswith(other_ref + "/") for other_ref in package_map):
+                continue  # already part of another package in this document
+            parent_ref = package_ref.rpartition("/")[0]
+            parent = document.make_packages(parent_ref) if parent_ref else document
+            parent.append(copy.copy(package))  # the package itself stays where it is
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
@@ -268,7 +275,7 @@ class Workspace(ar_element.PackageCollection):
                 document = ar_document.Document(schema_version=schema_version)
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
-                    new_package.append(element)
+                    new_package.append(copy.copy(element))  # the element itself stays where it is
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From b061545d585ed0f2e7b7f063aa1c7dcb2538b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 43/86] fix: a template whose name is used by a package
 returned that package

---
 src/autosar/xml/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index bbcfdca..bc50697 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -367,6 +367,8 @@ class Workspace(ar_element.PackageCollection):
                     raise TypeError(f"{str(type(elem))}: Class is not an ARElement")
                 if template.append_to_package:
                     package.append(elem)
+            elif not isinstance(elem, ar_element.ARElement):
+                raise TypeError(f"{template.element_name}: Name is already used by {str(type(elem))}")
             return elem
         else:
             raise TypeError(f"Expected Package, got {str(type(package))}")
-- 
2.43.0


From 0b198b207aa8ce6ecedac06a1ffebb2241afb32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 44/86] fix: make_value silently dropped a default pattern
 given together with a value

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 12af11d..6d8560d 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2638,6 +2638,8 @@ class ValueSpecification(ARObject):
                 label, value = data
             elif len(data) == 3:
                 label, value, default_pattern = data
+                if value is not None:
+                    raise ValueError(f"default_pattern is only allowed when value is None: {repr(data)}")
             else:
                 raise ValueError(f"Too many elements in tuple: {repr(data)}")
         else:
-- 
2.43.0


From e1ccb8df057d6b2a8c24779de094bcec0da8d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 45/86] fix: check_value raised when a limit is missing and
 accepted NaN

---
 src/autosar/xml/element.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6d8560d..b59898b 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1335,16 +1335,20 @@ class LimitObject(ARObject):
         """
         Checks if given value is inside the constraint limits
         """
-        if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
-            if value < self.lower_limit:
-                return False
-        elif value <= self.lower_limit:
+        if value != value:  # NaN is not inside any limits
             return False
-        if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
-            if value > self.upper_limit:
+        if self.lower_limit is not None:
+            if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
+                if value < self.lower_limit:
+                    return False
+            elif value <= self.lower_limit:
+                return False
+        if self.upper_limit is not None:
+            if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
+                if value > self.upper_limit:
+                    return False
+            elif value >= self.upper_limit:
                 return False
-        elif value >= self.upper_limit:
-            return False
         return True
 
 
-- 
2.43.0


From e2e6c6d89f5a99d215af3e90e9896dad9f243a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 46/86] fix: unknown names in com-specs of require-ports raised
 the wrong error

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b59898b..f93e5a3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4459,7 +4459,7 @@ class RequirePortComSpec(ARObject):
                                                                              **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    element_names = ', '.join(list[unprocessed])
+                    element_names = ', '.join(list(unprocessed))
                     msg = f"{port_interface.name}: Data element(s) not found in port interface: '{element_names}'"
                     raise ValueError(msg)
                 return com_spec_list
@@ -4482,7 +4482,7 @@ class RequirePortComSpec(ARObject):
                         com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    operations = ', '.join(list[unprocessed])
+                    operations = ', '.join(list(unprocessed))
                     raise ValueError(f"{port_interface.name}: Operation(s) not found in port interface: '{operations}'")
                 return com_spec_list
         elif isinstance(port_interface, ModeSwitchInterface):
-- 
2.43.0


From 6cb477e26018174ef3ac59943601cd36e7407b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 47/86] fix: create_p_port and create_r_port dropped a single
 com-spec

---
 src/autosar/xml/element.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f93e5a3..742741c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5009,8 +5009,8 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
+            elif not isinstance(com_spec, ProvidePortComSpec):
+                raise TypeError(f"Unsupported type in com-spec: {str(type(com_spec))}")
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
         self.append_port(port)
         return port
@@ -5058,8 +5058,8 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
+            elif not isinstance(com_spec, RequirePortComSpec):
+                raise TypeError(f"Unsupported type in com-spec: {str(type(com_spec))}")
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
         return port
-- 
2.43.0


From b009d9278d20615177b7b9d602056a2a348fa1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 48/86] fix: named com-specs failed for port interfaces with a
 single element

---
 src/autosar/xml/element.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 742741c..ca743d3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4979,6 +4979,28 @@ class SwComponentType(ARElement, Searchable):
                 return _find_rest(elem, parts[2])
         return None
 
+    @staticmethod
+    def _make_com_specs_by_name(com_spec_type: type[ProvidePortComSpec] | type[RequirePortComSpec],
+                                port_interface: PortInterface,
+                                com_specs: dict[str, dict]
+                                ) -> list[ProvidePortComSpec] | list[RequirePortComSpec]:
+        """
+        Creates com-specs from a dictionary where each key is the name of an element
+        (or operation) in the port interface
+        """
+        if isinstance(port_interface, SenderReceiverInterface):
+            names = [elem.name for elem in port_interface.data_elements]
+        elif isinstance(port_interface, ClientServerInterface):
+            names = [elem.name for elem in port_interface.operations]
+        else:
+            raise TypeError(f"Named com-specs not supported for port interface: {str(type(port_interface))}")
+        if len(names) == 1:
+            unknown = ', '.join(name for name in com_specs if name not in names)
+            if unknown:
+                raise ValueError(f"{port_interface.name}: Not found in port interface: '{unknown}'")
+            return [com_spec_type.make_from_port_interface(port_interface, **com_specs[names[0]])]
+        return com_spec_type.make_from_port_interface(port_interface, **com_specs)
+
     def create_p_port(self,
                       name: str,
                       port_interface: PortInterface | None = None,
@@ -5003,11 +5025,13 @@ class SwComponentType(ARElement, Searchable):
                         if not len(elem) == 2:
                             raise NotImplementedError("Com-spec element must be a 2-tuple containing [str, dict]. "
                                                       f"Got tuple with length {len(elem)}")
+                        if elem[0] in unprocessed:
+                            raise ValueError(f"More than one com-spec for '{elem[0]}'")
                         unprocessed[elem[0]] = elem[1]
                     else:
                         raise TypeError(f"Unsupported type in com-spec element: {str(type(elem))}")
                 if len(unprocessed):
-                    processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
+                    processed.extend(self._make_com_specs_by_name(ProvidePortComSpec, port_interface, unprocessed))
                 com_spec = processed
             elif not isinstance(com_spec, ProvidePortComSpec):
                 raise TypeError(f"Unsupported type in com-spec: {str(type(com_spec))}")
@@ -5052,11 +5076,13 @@ class SwComponentType(ARElement, Searchable):
                         if not len(elem) == 2:
                             raise NotImplementedError("Com-spec element must be a 2-tuple containing [str, dict]. "
                                                       f"Got tuple with length {len(elem)}")
+                        if elem[0] in unprocessed:
+                            raise ValueError(f"More than one com-spec for '{elem[0]}'")
                         unprocessed[elem[0]] = elem[1]
                     else:
                         raise TypeError(f"Unsupported type in com-spec element: {str(type(elem))}")
                 if len(unprocessed):
-                    processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
+                    processed.extend(self._make_com_specs_by_name(RequirePortComSpec, port_interface, unprocessed))
                 com_spec = processed
             elif not isinstance(com_spec, RequirePortComSpec):
                 raise TypeError(f"Unsupported type in com-spec: {str(type(com_spec))}")
-- 
2.43.0


From 3a543aabbe9f6bb1e242cd18d6735fab4968979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 49/86] fix: ports could not be created without port interface

---
 src/autosar/xml/element.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ca743d3..07b7b86 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5035,7 +5035,8 @@ class SwComponentType(ARElement, Searchable):
                 com_spec = processed
             elif not isinstance(com_spec, ProvidePortComSpec):
                 raise TypeError(f"Unsupported type in com-spec: {str(type(com_spec))}")
-        port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
+        port_interface_ref = None if port_interface is None else port_interface.ref()
+        port = ProvidePortPrototype(name, port_interface_ref, com_spec, **kwargs)
         self.append_port(port)
         return port
 
@@ -5086,7 +5087,8 @@ class SwComponentType(ARElement, Searchable):
                 com_spec = processed
             elif not isinstance(com_spec, RequirePortComSpec):
                 raise TypeError(f"Unsupported type in com-spec: {str(type(com_spec))}")
-        port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
+        port_interface_ref = None if port_interface is None else port_interface.ref()
+        port = RequirePortPrototype(name, port_interface_ref, com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
         return port
 
@@ -5122,7 +5124,8 @@ class SwComponentType(ARElement, Searchable):
             if isinstance(required_com_spec, dict):
                 required_com_spec = RequirePortComSpec.make_from_port_interface(port_interface, **required_com_spec)
                 assert required_com_spec is not None
-        port = PRPortPrototype(name, port_interface.ref(), provided_com_spec, required_com_spec, **kwargs)
+        port_interface_ref = None if port_interface is None else port_interface.ref()
+        port = PRPortPrototype(name, port_interface_ref, provided_com_spec, required_com_spec, **kwargs)
         self.append_port(port)
         return port
 
-- 
2.43.0


From db67a0a007ab4a1deff01badcc2fcc6d0f66fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 50/86] fix: error of get_port_interface did not name the
 reference

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 07b7b86..2209303 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3151,7 +3151,7 @@ class PackageCollection:
         """
         port_interface = self.find(ref)
         if port_interface is None:
-            raise ar_except.InvalidReferenceError(f"Invalid port interface reference: '{str(port_interface)}'")
+            raise ar_except.InvalidReferenceError(f"Invalid port interface reference: '{str(ref)}'")
         return port_interface
 
 # --- ModeDeclaration elements
-- 
2.43.0


From bd473c90c270a4a2f73ddff43d3afd46e2be0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 51/86] fix: create_connector with an unknown component raised
 AttributeError

---
 src/autosar/xml/element.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 2209303..36504e6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5577,6 +5577,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                             msg = f"Component '{component.name}' does not seem to have a port with name '{port_name}'"
                             raise ValueError(msg)
                         return port, elem
+                raise ValueError(f"Composition '{self.name}' does not seem to have a component with name '{parts[0]}'")
             else:
                 raise ValueError(f"Invalid format: '{port_ref}'")
         else:  # Format is 'port_name'
-- 
2.43.0


From 21989f09df5c72abf2dd3354c4c4cec52a3ffa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 52/86] fix: delegation and pass-through connectors had no
 parent

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 36504e6..6d2f460 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5622,7 +5622,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5632,7 +5632,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
-- 
2.43.0


From a766b1f87489b682c493550c396f5ce0b4c92dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 53/86] fix: create_connector mixed up pass-through ports and
 refused PR-ports

---
 src/autosar/xml/element.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6d2f460..15afbc7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5528,7 +5528,11 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
-            return self._create_pass_through_connector(port1, port2)
+            if self._is_provide_port(port1) and self._is_require_port(port2):
+                return self._create_pass_through_connector(port1, port2)
+            elif self._is_require_port(port1) and self._is_provide_port(port2):
+                return self._create_pass_through_connector(port2, port1)
+            raise ValueError('a pass-through connector needs one provide-port and one require-port')
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
         elif component2 is None:
@@ -5538,12 +5542,12 @@ class CompositionSwComponentType(SwComponentType, Searchable):
             provider_component: SwComponentPrototype = None
             provide_port: PortPrototype = None
             require_port: PortPrototype = None
-            if isinstance(port1, RequirePortPrototype) and isinstance(port2, ProvidePortPrototype):
-                requester_component, provider_component = component1, component2
-                require_port, provide_port = port1, port2
-            elif isinstance(port1, ProvidePortPrototype) and isinstance(port2, RequirePortPrototype):
+            if self._is_provide_port(port1) and self._is_require_port(port2):
                 requester_component, provider_component = component2, component1
                 require_port, provide_port = port2, port1
+            elif self._is_require_port(port1) and self._is_provide_port(port2):
+                requester_component, provider_component = component1, component2
+                require_port, provide_port = port1, port2
             elif isinstance(port1, RequirePortPrototype) and isinstance(port2, RequirePortPrototype):
                 raise ValueError('cannot create assembly connector between two require-ports')
             else:
@@ -5551,6 +5555,20 @@ class CompositionSwComponentType(SwComponentType, Searchable):
             return self._create_assembly_connector(provider_component, provide_port,
                                                    requester_component, require_port)
 
+    @staticmethod
+    def _is_provide_port(port: PortPrototype) -> bool:
+        """
+        True if port can provide data
+        """
+        return isinstance(port, (ProvidePortPrototype, PRPortPrototype))
+
+    @staticmethod
+    def _is_require_port(port: PortPrototype) -> bool:
+        """
+        True if port can require data
+        """
+        return isinstance(port, (RequirePortPrototype, PRPortPrototype))
+
     def _analyze_port_ref(self,
                           workspace: Searchable,
                           port_ref: str) -> tuple[PortPrototype, Union[SwComponentPrototype, None]]:
-- 
2.43.0


From 68063986554af05f4adaa771d61e4f44ae45e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 54/86] fix: create_connector delegated provide-ports to
 require-ports

---
 src/autosar/xml/element.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 15afbc7..e4bccc1 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5632,6 +5632,9 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                                      inner_component: SwComponentPrototype,
                                      inner_port: PortPrototype,
                                      outer_port: PortPrototype) -> DelegationSwConnector:
+        if not ((self._is_provide_port(inner_port) and self._is_provide_port(outer_port)) or
+                (self._is_require_port(inner_port) and self._is_require_port(outer_port))):
+            raise ValueError('cannot create delegation connector between a provide-port and a require-port')
         if isinstance(outer_port, ProvidePortPrototype):
             connector_name = '_'.join([inner_component.name, inner_port.name, outer_port.name])
         else:
-- 
2.43.0


From 3b6390928d642006582606109d796f669dab9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 55/86] fix: PR-ports delegated to an R-PORT were written as
 provide-ports

---
 src/autosar/xml/element.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e4bccc1..7060a36 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5384,6 +5384,9 @@ class DelegationSwConnector(SwConnector):
         Raises exception is port reference isn't set or if port-reference contains invalid value
         """
         if self.inner_port.port_ref is not None:
+            if self.inner_port.port_ref.is_require_port_ref and self.outer_port is not None:
+                if not self.outer_port.is_provide_port_ref:  # PR-PORT delegated to an R-PORT
+                    return "R-PORT-IN-COMPOSITION-INSTANCE-REF"
             if self.inner_port.port_ref.is_provide_port_ref:
                 return "P-PORT-IN-COMPOSITION-INSTANCE-REF"
             if self.inner_port.port_ref.is_require_port_ref:
-- 
2.43.0


From 9799512a33d26694a980bebb0de5b734fb0bc6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 56/86] fix: create_component_prototype made several components
 with the same name

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7060a36..99ba5d1 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5504,6 +5504,8 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         """
         if name is None:
             name = component_type.name
+        if self.find(name) is not None:
+            raise ValueError(f"{self.name}: Element with name '{name}' already exists")
         component_prototype = SwComponentPrototype(name, component_type.ref(), **kwargs)
         self.append_component(component_prototype)
         return component_prototype
-- 
2.43.0


From 2c205795affb92e265b09a13d66a47490bae690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 57/86] fix: make_unique_name_in_list returned names already in
 use and mistook longer names for numbered ones

---
 src/autosar/xml/element.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 99ba5d1..fad153d 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -324,18 +324,20 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
     Returns a new name which is guaranteed to be unique in the given list
     """
     has_index = False
+    has_index_zero = False
     highest_index = 0
     unpatched_elem: Referrable | None = None
-    expr = re.compile(base_name + r'_(\d+)')
+    expr = re.compile(re.escape(base_name) + r'_(\d+)')
     for element in elements:
-        result = expr.match(element.name)
+        result = expr.fullmatch(element.name)
         if result is not None:
             has_index = True
+            has_index_zero = has_index_zero or element.name == base_name + '_0'
             index = int(result.group(1))
             highest_index = max(highest_index, index)
         elif element.name == base_name:
             unpatched_elem = element
-    if unpatched_elem is not None:
+    if unpatched_elem is not None and not has_index_zero:
         unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
-- 
2.43.0


From 6e11e3afb176c39f69013b2d8a04b810b4415990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 58/86] fix: a refused event creation renamed an existing event

---
 src/autosar/xml/element.py | 49 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index fad153d..63431cd 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8184,6 +8184,13 @@ class SwcInternalBehavior(InternalBehavior):
         """
         return make_unique_name_in_list(self.events, event_name)
 
+    def _append_unique_event(self, event: RteEvent) -> None:
+        """
+        Adds event to internal list of events. The event is renamed when its name isn't unique
+        """
+        event.name = self._make_unique_event_name(event.name)
+        self.append_event(event)
+
     def create_background_event(self,
                                 runnable_name: str,
                                 event_name: str | None = None,
@@ -8206,9 +8213,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " background_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = BackgroundEvent(unique_event_name, runnable.ref(), **kwargs)
-        self.append_event(event)
+        event = BackgroundEvent(event_name, runnable.ref(), **kwargs)
+        self._append_unique_event(event)
         return event
 
     def create_data_receive_error_event(self,
@@ -8253,13 +8259,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceiveErrorEvent.make(unique_event_name,
+        event = DataReceiveErrorEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_data_element.ref(),
                                            **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_data_received_event(self,
@@ -8304,13 +8309,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceivedEvent.make(unique_event_name,
+        event = DataReceivedEvent.make(event_name,
                                        runnable.ref(),
                                        context_port.ref(),
                                        target_data_element.ref(),
                                        **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_data_send_completed_event(self,
@@ -8371,9 +8375,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " init_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = InitEvent(unique_event_name, runnable.ref(), **kwargs)
-        self.append_event(event)
+        event = InitEvent(event_name, runnable.ref(), **kwargs)
+        self._append_unique_event(event)
         return event
 
     def create_operation_invoked_event(self,
@@ -8415,13 +8418,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " operation_invoked_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = OperationInvokedEvent.make(unique_event_name,
+        event = OperationInvokedEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_provided_operation.ref(),
                                            **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_swc_mode_manager_error_event(self,
@@ -8458,13 +8460,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_manager_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = SwcModeManagerErrorEvent.make(unique_event_name,
+        event = SwcModeManagerErrorEvent.make(event_name,
                                               runnable.ref(),
                                               context_port.ref(),
                                               context_mode_declaration_group.ref(),
                                               **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_swc_mode_mode_switch_event(self,
@@ -8497,14 +8498,13 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_switch_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
         expected_formats = "Expected formats: '<PortName>', '<PortName>/<ModeDeclarationName>', tuple[str, str]"
         if isinstance(mode_ref, str):
             if len(mode_ref) == 0:
                 raise ValueError("mode_ref: Invalid argument. " + expected_formats)
             context_port, context_mode_declaration_group, target_mode_declaration = (
                 self._get_swc_mode_switch_event_args(workspace, swc, mode_ref))
-            event = SwcModeSwitchEvent.make(unique_event_name,
+            event = SwcModeSwitchEvent.make(event_name,
                                             runnable.ref(),
                                             activation,
                                             context_port.ref(),
@@ -8526,14 +8526,14 @@ class SwcInternalBehavior(InternalBehavior):
                                                                      target_mode_declaration.ref()))
                 else:
                     raise TypeError(f"mode_ref: Invalid type '{str(type(ref))}'. " + expected_formats)
-            event = SwcModeSwitchEvent(unique_event_name,
+            event = SwcModeSwitchEvent(event_name,
                                        runnable.ref(),
                                        activation,
                                        (instance_refs[0], instance_refs[1]),
                                        **kwargs)
         else:
             raise TypeError(f"mode_ref: Unsupported type '{str(type(mode_ref))}'")
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_timing_event(self,
@@ -8559,9 +8559,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " timing_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = TimingEvent(unique_event_name, runnable.ref(), period, offset, **kwargs)
-        self.append_event(event)
+        event = TimingEvent(event_name, runnable.ref(), period, offset, **kwargs)
+        self._append_unique_event(event)
         return event
 
     def _get_swc_mode_switch_event_args(self,
-- 
2.43.0


From 7ce85d6533c68426404d6ae69022a2c30415819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 59/86] fix: superfluous parts of port/element strings were
 ignored when creating events

---
 src/autosar/xml/element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 63431cd..90bd52a 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8236,6 +8236,8 @@ class SwcInternalBehavior(InternalBehavior):
         if runnable is None:
             raise KeyError(f"Found no runnable with name '{runnable_name}'")
         name_parts = split_ref_strict(port_data_element)
+        if len(name_parts) > 2:
+            raise ValueError("port_data_element: Formatting error, expected <PortName>/<DataElementName>")
         if len(name_parts) == 1:
             port_name, data_element_name = name_parts[0], None
         else:
@@ -8286,6 +8288,8 @@ class SwcInternalBehavior(InternalBehavior):
         if runnable is None:
             raise KeyError(f"Found no runnable with name '{runnable_name}'")
         name_parts = split_ref_strict(data_element_ref)
+        if len(name_parts) > 2:
+            raise ValueError("data_element_ref: Formatting error, expected <PortName>/<DataElementName>")
         if len(name_parts) == 1:
             port_name, data_element_name = name_parts[0], None
         else:
@@ -8396,6 +8400,8 @@ class SwcInternalBehavior(InternalBehavior):
         if runnable is None:
             raise KeyError(f"Found no runnable with name '{runnable_name}'")
         name_parts = split_ref_strict(operation_ref)
+        if len(name_parts) > 2:
+            raise ValueError("operation_ref: Formatting error, expected <PortName>/<OperationName>")
         if len(name_parts) == 1:
             port_name, operation_name = name_parts[0], None
         else:
-- 
2.43.0


From ca07d9c4703112cff9aaceb3ff64e1d9bab3c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 60/86] fix: create_runnable accepted the name of an existing
 runnable

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 90bd52a..737fec3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8134,6 +8134,8 @@ class SwcInternalBehavior(InternalBehavior):
 
         #convenience-method
         """
+        if self.find_runnable(name) is not None:
+            raise ValueError(f"name: A runnable with name '{name}' already exists in this SwcInternalBehavior object")
         if isinstance(symbol, str) and len(symbol) == 0:
             symbol = name
         if can_enter_leave is not None:
-- 
2.43.0


From 89f0742f16980c37148593ac3764b46ad08c2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 61/86] fix: SwcModeSwitchEvent accepted mode tuples of the
 wrong length

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 737fec3..9ccfc42 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -7686,6 +7686,8 @@ class SwcModeSwitchEvent(RteEvent):
             if isinstance(mode, RModeInAtomicSwcInstanceRef):
                 self.mode = mode
             elif isinstance(mode, tuple):
+                if len(mode) != 2:
+                    raise ValueError("mode: Must be exactly two elements in tuple")
                 if (isinstance(mode[0], RModeInAtomicSwcInstanceRef) and  # noqa W504
                         isinstance(mode[1], RModeInAtomicSwcInstanceRef)):
                     self.mode = mode
-- 
2.43.0


From fb8125d219b6fdc1c998ee62e5d55afcb7dc9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 62/86] fix: create_port_api_options created some options
 before refusing an invalid port name

---
 src/autosar/xml/element.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 9ccfc42..fadf89d 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8621,23 +8621,24 @@ class SwcInternalBehavior(InternalBehavior):
         """
         swc = self.get_valid_parent()
         # names of ports to process.
-        # The bool is used to check if it has been handled or not
-        ports_to_process: dict[str, bool] = {}
+        ports_to_process: list[str] = []
         if isinstance(port_name, str):
             if port_name == "*":
                 for port in swc.ports:
-                    ports_to_process[port.name] = False
+                    ports_to_process.append(port.name)
             else:
-                ports_to_process[port_name] = False
+                ports_to_process.append(port_name)
         elif isinstance(port_name, Iterable):
-            for name in port_name:
-                ports_to_process[name] = False
+            ports_to_process.extend(port_name)
         else:
             raise TypeError(f"port_name: Expected type string or list of string. Got {str(type(port_name))}")
+        port_names = {port.name for port in swc.ports}
+        for name in ports_to_process:
+            if name not in port_names:
+                raise ValueError(f"port_name: '{name}' is not a valid port name in SWC '{swc.name}'")
         if len(ports_to_process):
             for port in sorted(swc.ports, key=lambda x: x.name.lower()):
                 if port.name in ports_to_process:
-                    ports_to_process[port.name] = True
                     option = self._create_port_api_option_internal(port,
                                                                    enable_take_address,
                                                                    indirect_api,
@@ -8646,9 +8647,6 @@ class SwcInternalBehavior(InternalBehavior):
                                                                    supported_features,
                                                                    transformer_status_forwarding)
                     self.append_port_api_option(option)
-            for key, value in ports_to_process.items():
-                if not value:
-                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
 
     def _create_port_api_option_internal(self,
                                          port: PortPrototypeElement,
-- 
2.43.0


From 14b7e76157d12e91de431448d57299a3440bd058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 63/86] fix: create_exclusive_area accepted the name of an
 existing exclusive area

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index fadf89d..becf69d 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -7971,6 +7971,8 @@ class InternalBehavior(Identifiable):
 
         #convenience-method
         """
+        if self._find_by_name(self.exclusive_areas, name) is not None:
+            raise ValueError(f"name: An exclusive area with name '{name}' already exists in this object")
         exclusive_area = ExclusiveArea(name, **kwargs)
         self.append_exclusive_area(exclusive_area)
         return exclusive_area
-- 
2.43.0


From ca7ed02b8cf385f15822608fdd8a4a1c29b26dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 64/86] fix: port access to the only parameter of an interface
 failed when its name was left out

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index becf69d..b34fba4 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6983,7 +6983,7 @@ class RunnableEntity(ExecutableEntity):
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
-- 
2.43.0


From 3ca12953918058c374b88f10f1a9b4f7e5e2c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 65/86] fix: create_port_access modified the argument
 dictionaries of the caller

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b34fba4..ebcd771 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6790,6 +6790,8 @@ class RunnableEntity(ExecutableEntity):
         for elem in elements:
             if isinstance(elem, tuple):
                 text, access_point_args = elem
+                if access_point_args is not None:
+                    access_point_args = dict(access_point_args)  # The dictionary belongs to the caller
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
-- 
2.43.0


From 0bfc3487eecd50946eb5fcbb28277f56a7450f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 66/86] fix: create_port_access dropped name and arguments of
 mode access points without prefix

---
 src/autosar/xml/element.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ebcd771..14928b0 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6941,23 +6941,24 @@ class RunnableEntity(ExecutableEntity):
                                f"in port interface '{port_interface.name}'")
         name: str | None = None
         access_point = None
+        has_args = bool(access_point_args)  # Arguments need a ModeAccessPointIdent
         if access_point_args is not None and "name" in access_point_args:
             name = access_point_args["name"]
             del access_point_args["name"]
         if isinstance(port, RequirePortPrototype):
             mode_group_iref = RModeGroupInAtomicSwcInstanceRef(port.ref(), mode_group.ref())
-            if access_type is None:
+            if access_type is None and not has_args:
                 access_point = ModeAccessPoint(mode_group=mode_group_iref)
-            elif access_type == ar_enum.ModeAccess.ACCESS:
+            elif access_type in (None, ar_enum.ModeAccess.ACCESS):
                 if name is None:
                     name = "_".join([settings.get_value("mode_access_point_prefix"), port.name, mode_group.name])
                 ident = ModeAccessPointIdent.make_with_args(name, access_point_args)
                 access_point = ModeAccessPoint(ident=ident, mode_group=mode_group_iref)
         elif isinstance(port, ProvidePortPrototype):
             mode_group_iref = PModeGroupInAtomicSwcInstanceRef(port.ref(), mode_group.ref())
-            if access_type is None:
+            if access_type is None and not has_args:
                 access_point = ModeAccessPoint(mode_group=mode_group_iref)
-            elif access_type == ar_enum.ModeAccess.ACCESS:
+            elif access_type in (None, ar_enum.ModeAccess.ACCESS):
                 if name is None:
                     name = "_".join([settings.get_value("mode_access_point_prefix"), port.name, mode_group.name])
                 ident = ModeAccessPointIdent.make_with_args(name, access_point_args)
-- 
2.43.0


From 84ed7f82e42ccc422e8c3f3889ab6acd87fb82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 67/86] fix: create_port_access silently did nothing for
 unsupported ports

---
 src/autosar/xml/element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 14928b0..00f02be 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6954,6 +6954,8 @@ class RunnableEntity(ExecutableEntity):
                     name = "_".join([settings.get_value("mode_access_point_prefix"), port.name, mode_group.name])
                 ident = ModeAccessPointIdent.make_with_args(name, access_point_args)
                 access_point = ModeAccessPoint(ident=ident, mode_group=mode_group_iref)
+            else:
+                raise ValueError(f"port '{port.name}': Mode switch point requires a P-PORT")
         elif isinstance(port, ProvidePortPrototype):
             mode_group_iref = PModeGroupInAtomicSwcInstanceRef(port.ref(), mode_group.ref())
             if access_type is None and not has_args:
@@ -6971,6 +6973,8 @@ class RunnableEntity(ExecutableEntity):
                 else:
                     switch_point = ModeSwitchPoint(name, mode_group_iref)
                 self.append_mode_switch_point(switch_point)
+        else:
+            raise TypeError(f"Type not supported: {str(type(port))}")
         if access_point:
             self.append_mode_access_point(access_point)
 
@@ -7055,6 +7059,8 @@ class RunnableEntity(ExecutableEntity):
                     access_point = SynchronousServerCallPoint(name, operation=operation_iref)
             if access_point:
                 self.append_server_call_point(access_point)
+        else:
+            raise TypeError(f"Type not supported: {str(type(port))}")
 
     def append_argument(self, argument: RunnableEntityArgument) -> None:
         """
-- 
2.43.0


From 15a49b9e2dc7d64758bc8d9c4d231e3d10fa9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 68/86] fix: create_port_access ignored prefixes that do not
 apply to the port

---
 src/autosar/xml/element.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 00f02be..1c3cebf 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6807,6 +6807,8 @@ class RunnableEntity(ExecutableEntity):
             if port is None:
                 raise ValueError(f"Invalid port name: {port_name}")
             port_interface = workspace.get_port_interface(port.port_interface_ref)
+            if parts[1] == ":":
+                self._check_port_access_prefix(parts[0].upper(), port, port_interface)
             self._create_port_access_internal(port, port_interface, ref[2], settings, options, access_point_args)
 
     def _parse_port_access_prefix(self, text: str, options: PortAccessOptions) -> None:
@@ -6834,6 +6836,21 @@ class RunnableEntity(ExecutableEntity):
         else:
             raise ValueError(f"Unrecognized access option: '{text}'")
 
+    def _check_port_access_prefix(self, text: str, port: PortPrototypeElement, port_interface: PortInterface) -> None:
+        """
+        Verifies that the (recognized) prefix can be used with given port and interface
+        """
+        port_type = None
+        if text in ("ASYNC", "SYNC"):
+            interface_type = ClientServerInterface
+        elif text in ("ACCESS", "SWITCH"):
+            interface_type = ModeSwitchInterface
+        else:
+            interface_type = (SenderReceiverInterface, NvDataInterface)
+            port_type = RequirePortPrototype if text in ("WRITE", "SEND") else ProvidePortPrototype
+        if not isinstance(port_interface, interface_type) or (port_type is not None and isinstance(port, port_type)):
+            raise ValueError(f"Access option '{text}' can't be used with port '{port.name}'")
+
     def _create_port_access_internal(self,
                                      port: PortPrototypeElement,
                                      port_interface: PortInterface,
-- 
2.43.0


From 12a6949824a2ec0fb906465bfa31da8e8dec4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 69/86] fix: create_port_access took names of other elements
 than ports

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1c3cebf..10bf809 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6804,7 +6804,7 @@ class RunnableEntity(ExecutableEntity):
             ref = port_arg.partition("/")
             port_name = ref[0]
             port: PortPrototypeElement = swc.find(port_name)
-            if port is None:
+            if not isinstance(port, PortPrototype):
                 raise ValueError(f"Invalid port name: {port_name}")
             port_interface = workspace.get_port_interface(port.port_interface_ref)
             if parts[1] == ":":
-- 
2.43.0


From e168170d0003eaf3c5e9e12308c63557f54c057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 70/86] fix: names of access points in a runnable were not made
 unique

---
 src/autosar/xml/element.py | 45 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 10bf809..4d30a58 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6907,6 +6907,7 @@ class RunnableEntity(ExecutableEntity):
                     name = "_".join([settings.get_value("data_read_access_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
+                self._make_name_unique(self.data_read_access, variable_access, is_automatic=True)
                 self.append_data_read_access(variable_access)
             else:
                 if name is None:
@@ -6914,8 +6915,10 @@ class RunnableEntity(ExecutableEntity):
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
                 if result_type == ar_enum.ReadResult.BY_VALUE:
+                    self._make_name_unique(self.data_receive_point_by_value, variable_access, is_automatic=True)
                     self.append_data_receive_point_by_value(variable_access)
                 else:
+                    self._make_name_unique(self.data_receive_point_by_argument, variable_access, is_automatic=True)
                     self.append_data_receive_point_by_argument(variable_access)
         elif isinstance(port, ProvidePortPrototype):
             if access_type == ar_enum.PortAccess.IMPLICIT:
@@ -6923,12 +6926,14 @@ class RunnableEntity(ExecutableEntity):
                     name = "_".join([settings.get_value("data_write_access_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
+                self._make_name_unique(self.data_write_access, variable_access, is_automatic=True)
                 self.append_data_write_access(variable_access)
             else:
                 if name is None:
                     name = "_".join([settings.get_value("data_send_point_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
+                self._make_name_unique(self.data_send_point, variable_access, is_automatic=True)
                 self.append_data_send_point(variable_access)
         else:
             raise TypeError(f"Type not supported: {str(type(port))}")
@@ -6989,10 +6994,14 @@ class RunnableEntity(ExecutableEntity):
                     switch_point = ModeSwitchPoint(name, mode_group_iref, **access_point_args)
                 else:
                     switch_point = ModeSwitchPoint(name, mode_group_iref)
+                self._make_name_unique(self.mode_switch_point, switch_point, is_automatic=True)
                 self.append_mode_switch_point(switch_point)
         else:
             raise TypeError(f"Type not supported: {str(type(port))}")
         if access_point:
+            if access_point.ident is not None:
+                idents = [elem.ident for elem in self.mode_access_point if elem.ident is not None]
+                self._make_name_unique(idents, access_point.ident, is_automatic=True)
             self.append_mode_access_point(access_point)
 
     def _create_parameter_port_access(self,
@@ -7031,6 +7040,7 @@ class RunnableEntity(ExecutableEntity):
                                                **access_point_args)
         else:
             parameter_access = ParameterAccess(name, AutosarParameterRef(autosar_parameter=parameter_iref))
+        self._make_name_unique(self.parameter_access, parameter_access, is_automatic=True)
         self.append_parameter_access(parameter_access)
 
     def _create_client_server_port_access(self,
@@ -7075,6 +7085,7 @@ class RunnableEntity(ExecutableEntity):
                 else:
                     access_point = SynchronousServerCallPoint(name, operation=operation_iref)
             if access_point:
+                self._make_name_unique(self.server_call_point, access_point, is_automatic=True)
                 self.append_server_call_point(access_point)
         else:
             raise TypeError(f"Type not supported: {str(type(port))}")
@@ -7088,6 +7099,14 @@ class RunnableEntity(ExecutableEntity):
         else:
             raise TypeError(f"argument: Expected type RunnableEntityArgument, got '{str(type(argument))}'")
 
+    def _make_name_unique(self, elements: list[Referrable], new_element: Referrable, is_automatic: bool = False) -> None:
+        """
+        Renames new_element, which is about to be added to elements, in case its name is already in use.
+        Automatically named elements also continue the numbering of elements with the same base name.
+        """
+        if is_automatic or any(elem.name == new_element.name for elem in elements):
+            new_element.name = make_unique_name_in_list(elements, new_element.name)
+
     def append_async_server_call_result_point(self,
                                               result_point: AsynchronousServerCallResultPoint
                                               ) -> None:
@@ -7095,7 +7114,7 @@ class RunnableEntity(ExecutableEntity):
         A server call result point allows a runnable to fetch the result of an asynchronous server call.
         """
         if isinstance(result_point, AsynchronousServerCallResultPoint):
-            make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
+            self._make_name_unique(self.async_server_call_result_point, result_point)
             self.async_server_call_result_point.append(result_point)
             result_point.parent = self
         else:
@@ -7107,7 +7126,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit read access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_read_access, element.name)
+            self._make_name_unique(self.data_read_access, element)
             self.data_read_access.append(element)
             element.parent = self
         else:
@@ -7119,7 +7138,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of an argument in the function signature.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
+            self._make_name_unique(self.data_receive_point_by_argument, element)
             self.data_receive_point_by_argument.append(element)
             element.parent = self
         else:
@@ -7131,7 +7150,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of the return value.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_value, element.name)
+            self._make_name_unique(self.data_receive_point_by_value, element)
             self.data_receive_point_by_value.append(element)
             element.parent = self
         else:
@@ -7142,7 +7161,7 @@ class RunnableEntity(ExecutableEntity):
         Explicit write access to data element of a sender-receiver port or nv-data.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_send_point, element.name)
+            self._make_name_unique(self.data_send_point, element)
             self.data_send_point.append(element)
             element.parent = self
         else:
@@ -7153,7 +7172,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit write access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_write_access, element.name)
+            self._make_name_unique(self.data_write_access, element)
             self.data_write_access.append(element)
             element.parent = self
         else:
@@ -7175,7 +7194,7 @@ class RunnableEntity(ExecutableEntity):
         Internal triggering point
         """
         if isinstance(element, InternalTriggeringPoint):
-            make_unique_name_in_list(self.internal_triggering_point, element.name)
+            self._make_name_unique(self.internal_triggering_point, element)
             self.internal_triggering_point.append(element)
             element.parent = self
         else:
@@ -7197,7 +7216,7 @@ class RunnableEntity(ExecutableEntity):
         Mode switch point
         """
         if isinstance(element, ModeSwitchPoint):
-            make_unique_name_in_list(self.mode_switch_point, element.name)
+            self._make_name_unique(self.mode_switch_point, element)
             self.mode_switch_point.append(element)
             element.parent = self
         else:
@@ -7208,7 +7227,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to parameter which may either be local or within a PortPrototype.
         """
         if isinstance(element, ParameterAccess):
-            make_unique_name_in_list(self.parameter_access, element.name)
+            self._make_name_unique(self.parameter_access, element)
             self.parameter_access.append(element)
             element.parent = self
         else:
@@ -7219,7 +7238,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to a local variable in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.read_local_variable, element.name)
+            self._make_name_unique(self.read_local_variable, element)
             self.read_local_variable.append(element)
             element.parent = self
         else:
@@ -7230,7 +7249,7 @@ class RunnableEntity(ExecutableEntity):
         Write access to a local varaible in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.write_local_variable, element.name)
+            self._make_name_unique(self.write_local_variable, element)
             self.write_local_variable.append(element)
             element.parent = self
         else:
@@ -7241,7 +7260,7 @@ class RunnableEntity(ExecutableEntity):
         Access to call a server operation of a client-server port.
         """
         if isinstance(element, ServerCallPoint):
-            make_unique_name_in_list(self.server_call_point, element.name)
+            self._make_name_unique(self.server_call_point, element)
             self.server_call_point.append(element)
             element.parent = self
         else:
@@ -7253,7 +7272,7 @@ class RunnableEntity(ExecutableEntity):
         WaitPoint associated with the RunnableEntity
         """
         if isinstance(element, WaitPoint):
-            make_unique_name_in_list(self.wait_point, element.name)
+            self._make_name_unique(self.wait_point, element)
             self.wait_point.append(element)
             element.parent = self
         else:
-- 
2.43.0


From 2b1177e7b94ed1e5438f23eef0778cf8b78e3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 71/86] fix: generated header declared extern "C" in C instead
 of C++

---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..b8dcdd1 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From 5190a5381987186c56739e7c637b7aad6f5340f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 72/86] fix: type emitter of type references was ignored

---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..6bf31d2 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -137,7 +137,11 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref),
+                                       element.name,
+                                       impl_type,
+                                       symbol,
+                                       type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From 568d08ec8c1ecb5adb86f558da241a9f0ebc911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 73/86] fix: symbols of implementation data types were ignored
 by the generator

---
 src/autosar/generator/type_generator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index b8dcdd1..897066d 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -106,9 +106,10 @@ class TypeGenerator:
             if isinstance(data_type, rte_element.BaseType):
                 code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.native_declaration))))
             elif isinstance(data_type, rte_element.ScalarType):
-                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.base_type.name))))
+                code.append(C.statement(C.declaration(C.typedef(data_type.symbol_name, data_type.base_type.name))))
             elif isinstance(data_type, rte_element.RefType):
-                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.impl_type.name))))
+                code.append(C.statement(C.declaration(C.typedef(data_type.symbol_name,
+                                                                data_type.impl_type.symbol_name))))
             elif isinstance(data_type, rte_element.ArrayType):
                 code.append(self._gen_array_type_def(data_type))
             elif isinstance(data_type, rte_element.RecordType):
@@ -126,10 +127,10 @@ class TypeGenerator:
             else:
                 target_type = C.type(scalar_type.base_type.name)
         elif isinstance(last_element.data_type, rte_element.RefType):
-            target_type = C.type(last_element.data_type.impl_type.name)
+            target_type = C.type(last_element.data_type.impl_type.symbol_name)
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
-        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=last_element.array_size)))
+        return C.statement(C.declaration(C.typedef(data_type.symbol_name, target_type, array=last_element.array_size)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
@@ -141,13 +142,13 @@ class TypeGenerator:
                 else:
                     target_type = C.type(scalar_type.base_type.name)
             elif isinstance(element.data_type, rte_element.RefType):
-                target_type = C.type(element.data_type.impl_type.name)
+                target_type = C.type(element.data_type.impl_type.symbol_name)
             else:
                 raise NotImplementedError(str(type(element.data_type)))
             members.append(C.struct_member(element.name, target_type))
-        struct_name = "Rte_struct_" + data_type.name
+        struct_name = "Rte_struct_" + data_type.symbol_name
         code = C.sequence()
         struct = C.struct(struct_name, members)
         code.append(C.statement(C.declaration(struct)))
-        code.append(C.statement(C.declaration(C.typedef(data_type.name, struct))))
+        code.append(C.statement(C.declaration(C.typedef(data_type.symbol_name, struct))))
         return code
-- 
2.43.0


From 5500657a12f4196b74732cf614ff30e924a83542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 74/86] fix: arrays of more than one dimension failed or lost
 dimensions

---
 src/autosar/generator/type_generator.py | 6 +++++-
 src/autosar/model/implementation.py     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 897066d..74f807f 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -130,7 +130,11 @@ class TypeGenerator:
             target_type = C.type(last_element.data_type.impl_type.symbol_name)
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
-        return C.statement(C.declaration(C.typedef(data_type.symbol_name, target_type, array=last_element.array_size)))
+        # cfile only knows about the last dimension, preceding dimensions are made part of the declarator
+        dimensions = "".join(f"[{element.array_size}]" for element in data_type.sub_elements[:-1])
+        return C.statement(C.declaration(C.typedef(data_type.symbol_name + dimensions,
+                                                   target_type,
+                                                   array=last_element.array_size)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 6bf31d2..73bb78d 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -167,7 +167,7 @@ class ImplementationModel:
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-            assert isinstance(xml_ref.array_size, int)
+            assert isinstance(ar_sub_elem.array_size, int)
             rte_sub_element = rte_element.ArrayTypeElement(xml_ref, ar_sub_elem.name, ar_sub_elem.array_size)
             data_type.sub_elements.insert(0, rte_sub_element)
         self.data_types[str(elem_ref)] = data_type
-- 
2.43.0


From c3a0e476fed94f143698fb50a48bd2d316ef4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 75/86] fix: array types with impl policy, size handling or
 size semantics could not be created

---
 src/autosar/model/implementation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 73bb78d..d873f68 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -159,11 +159,11 @@ class ImplementationModel:
         else:
             raise NotImplementedError(last_element.category)
         if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[last_element.array_impl_policy.name]
         if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[last_element.array_size_handling.name]
         if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[last_element.array_size_semantics.name]
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-- 
2.43.0


From 454dba6cc1acb6a15c36156723657dc7be5e401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 76/86] fix: source types failed or were ignored depending on
 order of creation

---
 src/autosar/model/implementation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index d873f68..f18599c 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -49,11 +49,18 @@ class ImplementationModel:
         """
         Creates new application element from xml-based element
         """
+        data_type = self._find_or_create_type(element)
+        if is_source:
+            self.source_type_refs.add(str(element.ref()))
+        return data_type
+
+    def _find_or_create_type(self, element: ar_element.ARElement) -> Any:
+        """
+        Returns the type already created from the XML-based element, or creates it
+        """
         elem_ref = element.ref()
 
         if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
             if isinstance(element, ar_element.SwBaseType):
                 return self._create_base_type(element)
             elif isinstance(element, ar_element.ImplementationDataType):
-- 
2.43.0


From d893441a6b85579d4f1024634f2ccb959283122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 77/86] fix: alignment and display format accepted any text
 that only starts like one

---
 src/autosar/xml/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 3846cb5..58496bc 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -78,7 +78,7 @@ class ARObject:
         if isinstance(value, int):
             value = int(value)
         elif isinstance(value, str):
-            match = pattern.match(value)
+            match = pattern.fullmatch(value)
             if match is None:
                 raise ValueError(f"Invalid parameter '{value}' for '{attr_name}'")
         else:
-- 
2.43.0


From 4f130d61982fd3cc4e64de2a3b9049e66603d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 78/86] fix: texts given for boolean attributes became true,
 even "false"

---
 src/autosar/xml/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 58496bc..b5c2f7b 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -137,6 +137,9 @@ class ARObject:
         """
         Sets object attribute only if it can be converted to given type.
         """
+        if type_class is bool and isinstance(value, str):
+            # Any non-empty string is true in Python, including "false"
+            raise TypeError(f"{attr_name}: Invalid type. Expected bool, got '{str(type(value))}'")
         if type_class in {bool, int, str, float}:
             new_value = type_class(value)
         else:
-- 
2.43.0


From 19190db9da0b1126753daec496365c15f3472564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 79/86] fix: numbers given for integer attributes lost their
 fraction

---
 src/autosar/xml/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index b5c2f7b..26e45c8 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -140,6 +140,8 @@ class ARObject:
         if type_class is bool and isinstance(value, str):
             # Any non-empty string is true in Python, including "false"
             raise TypeError(f"{attr_name}: Invalid type. Expected bool, got '{str(type(value))}'")
+        if type_class is int and isinstance(value, float) and not value.is_integer():
+            raise ValueError(f"{attr_name}: Integer expected, got {value}")
         if type_class in {bool, int, str, float}:
             new_value = type_class(value)
         else:
-- 
2.43.0


From df9aa4434bcd27985c8fa158d1343c20c89eb4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 80/86] fix: octal numbers were refused or read as decimal ones

---
 src/autosar/xml/element.py | 13 +++++++++++--
 src/autosar/xml/reader.py  |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 4d30a58..e904e6f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -100,6 +100,15 @@ InitValueArgType = Union["int",
 # Helper classes
 
 
+def integer_from_text(text: str) -> int:
+    """
+    Converts AUTOSAR integer to int. Unlike in Python, integers that start with 0 are octal
+    """
+    if re.fullmatch(r"\s*[+-]?0[0-7]+\s*", text):
+        return int(text, 8)
+    return int(text, 0) if re.match(r"\s*[+-]?0[xXbBoO]", text) else int(text)
+
+
 class NumericalValue:
     """
     Wrapper for numerical value
@@ -131,7 +140,7 @@ class NumericalValue:
             return value
         elif isinstance(value, str):
             try:
-                return int(value, 0)
+                return integer_from_text(value)
             except ValueError:
                 return float(value)
         else:
@@ -162,7 +171,7 @@ class PositiveIntegerValue:
     def _validate_value(self, value: int | str) -> int:
         if isinstance(value, str):
             try:
-                value = int(value, 0)
+                value = integer_from_text(value)
             except ValueError as err:
                 raise TypeError("Unable to convert to integer") from err
         if isinstance(value, int):
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 4c576f8..78c4a16 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -493,7 +493,7 @@ class Reader:
         Attempts to convert text to either int or float
         """
         try:
-            value = int(text, 0) if re.match(r"\s*0[xXbB]", text) else int(text)
+            value = ar_element.integer_from_text(text)
         except ValueError:
             try:
                 value = float(text)
@@ -506,7 +506,7 @@ class Reader:
         Reads AR:INTEGER
         """
         try:
-            value = int(text, 0)
+            value = ar_element.integer_from_text(text)
         except ValueError as exc:
             raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
         return value
-- 
2.43.0


From 101908225ac5d599a92bbb6460cbf39c52299592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 81/86] fix: strings with an XML declaration of another
 encoding were misread or refused

---
 src/autosar/xml/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 78c4a16..c310d25 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -365,7 +365,7 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         self.document = None
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser("utf-8"))
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -405,12 +405,13 @@ class Reader:
             self.schema_version = schema_version
         return self.document
 
-    def _create_parser(self) -> ElementTree.XMLParser:
+    def _create_parser(self, encoding: str | None = None) -> ElementTree.XMLParser:
         """
         Creates XML parser. Comments and processing instructions are
         removed since they would otherwise split the text of elements.
+        The encoding, if given, overrides the one of the XML declaration.
         """
-        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+        return ElementTree.XMLParser(encoding=encoding, remove_comments=True, remove_pis=True)
 
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
-- 
2.43.0


From 14041db0cdd0ebfb4519e7233f8842d91addc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 82/86] fix: numbers with underscores or digits of other
 scripts were accepted; octal alignments were kept as text

---
 src/autosar/xml/element.py | 19 ++++++++++++++++++-
 src/autosar/xml/reader.py  | 10 +++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e904e6f..aa653ca 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -100,10 +100,27 @@ InitValueArgType = Union["int",
 # Helper classes
 
 
+def _check_number_characters(text: str) -> None:
+    """
+    Refuses characters that are allowed in Python numbers only (underscores, digits of other scripts)
+    """
+    if "_" in text or not text.isascii():
+        raise ValueError(f"Not a number: {text}")
+
+
+def float_from_text(text: str) -> float:
+    """
+    Converts AUTOSAR float to float
+    """
+    _check_number_characters(text)
+    return float(text)
+
+
 def integer_from_text(text: str) -> int:
     """
     Converts AUTOSAR integer to int. Unlike in Python, integers that start with 0 are octal
     """
+    _check_number_characters(text)
     if re.fullmatch(r"\s*[+-]?0[0-7]+\s*", text):
         return int(text, 8)
     return int(text, 0) if re.match(r"\s*[+-]?0[xXbBoO]", text) else int(text)
@@ -142,7 +159,7 @@ class NumericalValue:
             try:
                 return integer_from_text(value)
             except ValueError:
-                return float(value)
+                return float_from_text(value)
         else:
             raise TypeError(f"Unexpected type for value {str(type(value))}")
 
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index c310d25..c17d098 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -497,7 +497,7 @@ class Reader:
             value = ar_element.integer_from_text(text)
         except ValueError:
             try:
-                value = float(text)
+                value = ar_element.float_from_text(text)
             except ValueError as exc:
                 raise ar_exception.ParseError(f"Not a number: {text}") from exc
         return value
@@ -1520,10 +1520,10 @@ class Reader:
             data["display_name"] = self._read_single_language_unit_names(xml_child)
         xml_child = child_elements.get("FACTOR-SI-TO-UNIT")
         if xml_child is not None:
-            data["factor"] = float(xml_child.text)
+            data["factor"] = ar_element.float_from_text(xml_child.text)
         xml_child = child_elements.get("OFFSET-SI-TO-UNIT")
         if xml_child is not None:
-            data["offset"] = float(xml_child.text)
+            data["offset"] = ar_element.float_from_text(xml_child.text)
         xml_child = child_elements.get("PHYSICAL-DIMENSION-REF")
         if xml_child is not None:
             data["physical_dimension_ref"] = self._read_physical_dimension_ref(xml_child)
@@ -1762,7 +1762,7 @@ class Reader:
                 'DisplayPresentation', xml_child.text)
         xml_child = child_elements.get('STEP-SIZE')
         if xml_child is not None:
-            data['step_size'] = float(xml_child.text)
+            data['step_size'] = ar_element.float_from_text(xml_child.text)
         # Variant-handling not supported
         child_elements.skip('SW-VALUE-BLOCK-SIZE-MULTS')
         xml_child = child_elements.get('ANNOTATIONS')
@@ -1774,7 +1774,7 @@ class Reader:
         xml_child = child_elements.get('SW-ALIGNMENT')
         if xml_child is not None:
             try:
-                sw_alignment = int(xml_child.text, 0)
+                sw_alignment = ar_element.integer_from_text(xml_child.text)
             except ValueError:
                 sw_alignment = xml_child.text
             data['alignment'] = sw_alignment
-- 
2.43.0


From 14465945a5335f06f29e843edefc7f90c972117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 83/86] fix: Computation kept the list of scales of the caller,
 so that computations made from one list shared it

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index aa653ca..733a063 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1232,7 +1232,7 @@ class Computation(ARObject):
                  compu_scales: list[CompuScale] | None = None,
                  default_value: CompuConst | int | float | str | None = None) -> None:
 
-        self.compu_scales = compu_scales
+        self.compu_scales = list(compu_scales) if isinstance(compu_scales, list) else compu_scales
         self.default_value: CompuConst | int | float | str | None = None  # .COMPU-DEFAULT-VALUE
         if isinstance(default_value, CompuConst):
             self.default_value = default_value
-- 
2.43.0


From c8ffb3d995a3d307e046fa23cebde8cc75e4eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:27 +0000
Subject: [PATCH 84/86] fix: elements were lost when their ADMIN-DATA had
 special data groups without SD or without GID

---
 src/autosar/xml/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index c17d098..82c89df 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -601,16 +601,16 @@ class Reader:
         """
         Reads Complex-type AR:SDG
         """
-        group_key = xml_element.attrib['GID']
-        xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        group_key = xml_element.attrib.get('GID')
+        xml_sd = xml_element.find('./SD')  # Groups without SD are allowed, for example nested groups
+        special_data = {} if xml_sd is None else self._read_admin_data_sd(xml_sd)
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
         """
         Reads Complex-type AR:SD
         """
-        key = xml_element.attrib['GID']
+        key = xml_element.attrib.get('GID')
         value = xml_element.text
         return {key: value}
 
-- 
2.43.0


From cecfc1d9ae32bfe6c6270832978a6e37e3c14e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 85/86] fix: the label of a value group can be given as string,
 as documented

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 733a063..ba2848f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2538,6 +2538,8 @@ class ValueGroup(SwValues):
         if label is not None:
             if isinstance(label, MultilanguageLongName):
                 self.label = label
+            elif isinstance(label, str):
+                self.label = MultilanguageLongName((ar_enum.Language.FOR_ALL, label))
             elif isinstance(label, (tuple, LanguageLongName)):
                 self.label = MultilanguageLongName(label)
             else:
-- 
2.43.0


From 1ddc93472e3f114e96bdbe1c48a1abc9f9f4d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:15 +0000
Subject: [PATCH 86/86] fix: events of a runnable that can't be referenced are
 refused, they would start nothing

---
 src/autosar/xml/element.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ba2848f..d86f6ff 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8267,6 +8267,9 @@ class SwcInternalBehavior(InternalBehavior):
         """
         Adds event to internal list of events. The event is renamed when its name isn't unique
         """
+        if event.start_on_event is None:
+            msg = f"{event.name}: Runnable must have a valid reference. Make sure the parent SWC is part of a package"
+            raise ValueError(msg)
         event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
 
-- 
2.43.0

