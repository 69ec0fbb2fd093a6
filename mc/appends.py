"""
Append and create methods of the library: which one fills which constructor parameter.
(Names of public methods and parameters only.)
"""
from mc.spec import SPEC

APPEND = {
    ("ApplicationRecordDataType", "elements"): "append",
    ("ApplicationSoftwareComponentType", "ports"): "append_port",
    ("ArVariableInImplementationDataInstanceRef", "context_data_prototype_refs"): "append_context_data_protype_ref",
    ("VariableInAtomicSWCTypeInstanceRef", "context_data_prototype_refs"): "append_context_data_protype_ref",
    ("ArrayValueSpecification", "elements"): "append",
    ("ClientComSpec", "transformation_com_spec_props"): "append_transformation_com_spec_props",
    ("ClientServerInterface", "operations"): "append_operation",
    ("ClientServerInterface", "possible_errors"): "append_possible_errors",
    ("ClientServerOperation", "arguments"): "append_argument",
    ("ClientServerOperation", "possible_error_refs"): "append_possible_error_ref",
    ("Code", "artifact_descriptors"): "append_artifact_descriptor",
    ("CompositionSwComponentType", "components"): "append_component",
    ("CompositionSwComponentType", "connectors"): "append_connector",
    ("CompositionSwComponentType", "ports"): "append_port",
    ("DataTypeMappingSet", "data_type_maps"): "append",
    ("ImplementationDataType", "sub_elements"): "append",
    ("ImplementationDataTypeElement", "sub_elements"): "append",
    ("LanguageLongName", "parts"): "append",
    ("LanguageOverviewParagraph", "parts"): "append",
    ("LanguageParagraph", "parts"): "append",
    ("LanguageVerbatim", "parts"): "append",
    ("ModeDeclarationGroup", "mode_declarations"): "append_mode_declaratation",
    ("ModeDeclarationGroup", "mode_transitions"): "append_mode_transition",
    ("NonqueuedReceiverComSpec", "transformation_com_spec_props"): "append_transformation_com_spec_props",
    ("NvDataInterface", "data_elements"): "append_data_element",
    ("PRPortPrototype", "provided_com_spec"): "append_com_spec",
    ("PRPortPrototype", "required_com_spec"): "append_com_spec",
    ("ParameterInterface", "parameters"): "append_parameter",
    ("PortApiOption", "port_arg_values"): "append_port_arg_value",
    ("PortApiOption", "supported_features"): "append_supported_feature",
    ("ProvidePortPrototype", "com_spec"): "append_com_spec",
    ("QueuedReceiverComSpec", "transformation_com_spec_props"): "append_transformation_com_spec_props",
    ("RecordValueSpecification", "fields"): "append",
    ("RequirePortPrototype", "com_spec"): "append_com_spec",
    ("RunnableEntity", "activation_reasons"): "append_activation_reason",
    ("RunnableEntity", "argument"): "append_argument",
    ("RunnableEntity", "can_enter_leave"): "append_can_enter_leave",
    ("RunnableEntity", "exclusive_area_nesting_order"): "append_exclusive_area_nesting_order",
    ("RunnableEntity", "runs_insides"): "append_runs_insides",
    ("SenderReceiverInterface", "data_elements"): "append_data_element",
    ("SenderReceiverInterface", "invalidation_policies"): "append_invalidation_policy",
    ("ServerComSpec", "transformation_com_spec_props"): "append_transformation_com_spec_props",
    ("SingleLanguageUnitNames", "parts"): "append",
    ("SwDataDefProps", "variants"): "append",
    ("SwValues", "values"): "append",
    ("SwcImplementation", "code_descriptors"): "append_code_descriptor",
    ("SwcInternalBehavior", "data_type_mappings"): "append_data_type_mapping",
    ("SwcInternalBehavior", "events"): "append_event",
    ("SwcInternalBehavior", "exclusive_areas"): "append_exclusive_area",
    ("SwcInternalBehavior", "port_api_options"): "append_port_api_option",
    ("SwcInternalBehavior", "runnables"): "append_runnable",
    ("ValueGroup", "values"): "append",
    ("ValueList", "values"): "append",
}
for _p in ("async_server_call_result_point", "data_read_access", "data_receive_point_by_argument",
           "data_receive_point_by_value", "data_send_point", "data_write_access", "external_triggering_point",
           "internal_triggering_point", "mode_access_point", "mode_switch_point", "parameter_access",
           "read_local_variable", "server_call_point", "wait_point", "write_local_variable"):
    APPEND["RunnableEntity", _p] = "append_" + _p
for _c in SPEC:
    if _c.endswith("Event") and any(r.param == "disabled_modes" for r in SPEC[_c].all_rows()):
        APPEND[_c, "disabled_modes"] = "append_disabled_mode"

ARG = "ArgumentDirection"
# host class, method, created class, parameter of the host that holds it, positional parameters,
# parameters that the method decides
CREATE = [
    ("ModeDeclarationGroup", "create_mode_declaration", "ModeDeclaration", "mode_declarations", ("name", "value"), {}),
    ("SenderReceiverInterface", "create_data_element", "VariableDataPrototype", "data_elements",
     ("name", "init_value"), {}),
    ("SenderReceiverInterface", "create_invalidation_policy", "InvalidationPolicy", "invalidation_policies",
     ("data_element_ref", "handle_invalid"), {}),
    ("NvDataInterface", "create_data_element", "VariableDataPrototype", "data_elements", ("name", "init_value"), {}),
    ("ParameterInterface", "create_parameter", "ParameterDataPrototype", "parameters", ("name", "init_value"), {}),
    ("ClientServerOperation", "create_argument", "ArgumentDataPrototype", "arguments",
     ("name", "direction", "server_arg_impl_policy"), {}),
    ("ClientServerOperation", "create_in_argument", "ArgumentDataPrototype", "arguments",
     ("name", "server_arg_impl_policy"), {"direction": {"e": ARG + ".IN"}}),
    ("ClientServerOperation", "create_out_argument", "ArgumentDataPrototype", "arguments",
     ("name", "server_arg_impl_policy"), {"direction": {"e": ARG + ".OUT"}}),
    ("ClientServerOperation", "create_inout_argument", "ArgumentDataPrototype", "arguments",
     ("name", "server_arg_impl_policy"), {"direction": {"e": ARG + ".INOUT"}}),
    ("ClientServerInterface", "create_operation", "ClientServerOperation", "operations",
     ("name", "arguments", "diag_arg_integrity", "fire_and_forget", "possible_error_refs"), {}),
    ("ClientServerInterface", "create_possible_error", "ApplicationError", "possible_errors",
     ("name", "error_code"), {}),
    ("ModeSwitchInterface", "create_mode_group", "ModeDeclarationGroupPrototype", "mode_group",
     ("name", "type_ref", "calibration_access"), {}),
    ("SwcInternalBehavior", "create_exclusive_area", "ExclusiveArea", "exclusive_areas", ("name",), {}),
    ("SwcInternalBehavior", "create_runnable", "RunnableEntity", "runnables",
     ("name", "can_be_invoked_concurrently", "minimum_start_interval", "symbol", "activation_reasons",
      "can_enter_leave", "exclusive_area_nesting_order", "reentrancy_level", "runs_insides", "sw_addr_method"), {}),
    ("ApplicationSoftwareComponentType", "create_internal_behavior", "SwcInternalBehavior", "internal_behavior",
     ("name",), {}),
]
