// Code generated by tools/gen_types.py; DO NOT EDIT.

package ref

import (
	"reflect"

	"github.com/awcullen/opcua/ua"
)

var structTable = []StructInfo{
	{reflect.TypeOf(ua.KeyValuePair{}), 14846, []string{"Key", "Value"}},
	{reflect.TypeOf(ua.AdditionalParametersType{}), 17537, []string{"Parameters"}},
	{reflect.TypeOf(ua.EphemeralKeyType{}), 17549, []string{"PublicKey", "Signature"}},
	{reflect.TypeOf(ua.EndpointType{}), 15671, []string{"EndpointURL", "SecurityMode", "SecurityPolicyURI", "TransportProfileURI"}},
	{reflect.TypeOf(ua.RationalNumber{}), 18815, []string{"Numerator", "Denominator"}},
	{reflect.TypeOf(ua.Vector{}), 18816, []string{}},
	{reflect.TypeOf(ua.ThreeDVector{}), 18817, []string{"X", "Y", "Z"}},
	{reflect.TypeOf(ua.CartesianCoordinates{}), 18818, []string{}},
	{reflect.TypeOf(ua.ThreeDCartesianCoordinates{}), 18819, []string{"X", "Y", "Z"}},
	{reflect.TypeOf(ua.Orientation{}), 18820, []string{}},
	{reflect.TypeOf(ua.ThreeDOrientation{}), 18821, []string{"A", "B", "C"}},
	{reflect.TypeOf(ua.Frame{}), 18822, []string{}},
	{reflect.TypeOf(ua.ThreeDFrame{}), 18823, []string{"CartesianCoordinates", "Orientation"}},
	{reflect.TypeOf(ua.IdentityMappingRuleType{}), 15736, []string{"CriteriaType", "Criteria"}},
	{reflect.TypeOf(ua.CurrencyUnitType{}), 23507, []string{"NumericCode", "Exponent", "AlphabeticCode", "Currency"}},
	{reflect.TypeOf(ua.TrustListDataType{}), 12680, []string{"SpecifiedLists", "TrustedCertificates", "TrustedCrls", "IssuerCertificates", "IssuerCrls"}},
	{reflect.TypeOf(ua.DecimalDataType{}), 17863, []string{"Scale", "Value"}},
	{reflect.TypeOf(ua.DataTypeSchemaHeader{}), 15676, []string{"Namespaces", "StructureDataTypes", "EnumDataTypes", "SimpleDataTypes"}},
	{reflect.TypeOf(ua.DataTypeDescription{}), 125, []string{"DataTypeID", "Name"}},
	{reflect.TypeOf(ua.StructureDescription{}), 126, []string{"DataTypeID", "Name", "StructureDefinition"}},
	{reflect.TypeOf(ua.EnumDescription{}), 127, []string{"DataTypeID", "Name", "EnumDefinition", "BuiltInType"}},
	{reflect.TypeOf(ua.SimpleTypeDescription{}), 15421, []string{"DataTypeID", "Name", "BaseDataType", "BuiltInType"}},
	{reflect.TypeOf(ua.UABinaryFileDataType{}), 15422, []string{"Namespaces", "StructureDataTypes", "EnumDataTypes", "SimpleDataTypes", "SchemaLocation", "FileHeader", "Body"}},
	{reflect.TypeOf(ua.DataSetMetaDataType{}), 124, []string{"Namespaces", "StructureDataTypes", "EnumDataTypes", "SimpleDataTypes", "Name", "Description", "Fields", "DataSetClassID", "ConfigurationVersion"}},
	{reflect.TypeOf(ua.FieldMetaData{}), 14839, []string{"Name", "Description", "FieldFlags", "BuiltInType", "DataType", "ValueRank", "ArrayDimensions", "MaxStringLength", "DataSetFieldID", "Properties"}},
	{reflect.TypeOf(ua.ConfigurationVersionDataType{}), 14847, []string{"MajorVersion", "MinorVersion"}},
	{reflect.TypeOf(ua.PublishedDataSetDataType{}), 15677, []string{"Name", "DataSetFolder", "DataSetMetaData", "ExtensionFields", "DataSetSource"}},
	{reflect.TypeOf(ua.PublishedDataSetSourceDataType{}), 15678, []string{}},
	{reflect.TypeOf(ua.PublishedVariableDataType{}), 14323, []string{"PublishedVariable", "AttributeID", "SamplingIntervalHint", "DeadbandType", "DeadbandValue", "IndexRange", "SubstituteValue", "MetaDataProperties"}},
	{reflect.TypeOf(ua.PublishedDataItemsDataType{}), 15679, []string{"PublishedData"}},
	{reflect.TypeOf(ua.PublishedEventsDataType{}), 15681, []string{"EventNotifier", "SelectedFields", "Filter"}},
	{reflect.TypeOf(ua.DataSetWriterDataType{}), 15682, []string{"Name", "Enabled", "DataSetWriterID", "DataSetFieldContentMask", "KeyFrameCount", "DataSetName", "DataSetWriterProperties", "TransportSettings", "MessageSettings"}},
	{reflect.TypeOf(ua.DataSetWriterTransportDataType{}), 15683, []string{}},
	{reflect.TypeOf(ua.DataSetWriterMessageDataType{}), 15688, []string{}},
	{reflect.TypeOf(ua.PubSubGroupDataType{}), 15689, []string{"Name", "Enabled", "SecurityMode", "SecurityGroupID", "SecurityKeyServices", "MaxNetworkMessageSize", "GroupProperties"}},
	{reflect.TypeOf(ua.WriterGroupDataType{}), 21150, []string{"Name", "Enabled", "SecurityMode", "SecurityGroupID", "SecurityKeyServices", "MaxNetworkMessageSize", "GroupProperties", "WriterGroupID", "PublishingInterval", "KeepAliveTime", "Priority", "LocaleIDs", "HeaderLayoutURI", "TransportSettings", "MessageSettings", "DataSetWriters"}},
	{reflect.TypeOf(ua.WriterGroupTransportDataType{}), 15691, []string{}},
	{reflect.TypeOf(ua.WriterGroupMessageDataType{}), 15693, []string{}},
	{reflect.TypeOf(ua.PubSubConnectionDataType{}), 15694, []string{"Name", "Enabled", "PublisherID", "TransportProfileURI", "Address", "ConnectionProperties", "TransportSettings", "WriterGroups", "ReaderGroups"}},
	{reflect.TypeOf(ua.ConnectionTransportDataType{}), 15695, []string{}},
	{reflect.TypeOf(ua.NetworkAddressDataType{}), 21151, []string{"NetworkInterface"}},
	{reflect.TypeOf(ua.NetworkAddressURLDataType{}), 21152, []string{"NetworkInterface", "URL"}},
	{reflect.TypeOf(ua.ReaderGroupDataType{}), 21153, []string{"Name", "Enabled", "SecurityMode", "SecurityGroupID", "SecurityKeyServices", "MaxNetworkMessageSize", "GroupProperties", "TransportSettings", "MessageSettings", "DataSetReaders"}},
	{reflect.TypeOf(ua.ReaderGroupTransportDataType{}), 15701, []string{}},
	{reflect.TypeOf(ua.ReaderGroupMessageDataType{}), 15702, []string{}},
	{reflect.TypeOf(ua.DataSetReaderDataType{}), 15703, []string{"Name", "Enabled", "PublisherID", "WriterGroupID", "DataSetWriterID", "DataSetMetaData", "DataSetFieldContentMask", "MessageReceiveTimeout", "KeyFrameCount", "HeaderLayoutURI", "SecurityMode", "SecurityGroupID", "SecurityKeyServices", "DataSetReaderProperties", "TransportSettings", "MessageSettings", "SubscribedDataSet"}},
	{reflect.TypeOf(ua.DataSetReaderTransportDataType{}), 15705, []string{}},
	{reflect.TypeOf(ua.DataSetReaderMessageDataType{}), 15706, []string{}},
	{reflect.TypeOf(ua.SubscribedDataSetDataType{}), 15707, []string{}},
	{reflect.TypeOf(ua.TargetVariablesDataType{}), 15712, []string{"TargetVariables"}},
	{reflect.TypeOf(ua.FieldTargetDataType{}), 14848, []string{"DataSetFieldID", "ReceiverIndexRange", "TargetNodeID", "AttributeID", "WriteIndexRange", "OverrideValueHandling", "OverrideValue"}},
	{reflect.TypeOf(ua.SubscribedDataSetMirrorDataType{}), 15713, []string{"ParentNodeName", "RolePermissions"}},
	{reflect.TypeOf(ua.PubSubConfigurationDataType{}), 21154, []string{"PublishedDataSets", "Connections", "Enabled"}},
	{reflect.TypeOf(ua.UADPWriterGroupMessageDataType{}), 15715, []string{"GroupVersion", "DataSetOrdering", "NetworkMessageContentMask", "SamplingOffset", "PublishingOffset"}},
	{reflect.TypeOf(ua.UADPDataSetWriterMessageDataType{}), 15717, []string{"DataSetMessageContentMask", "ConfiguredSize", "NetworkMessageNumber", "DataSetOffset"}},
	{reflect.TypeOf(ua.UADPDataSetReaderMessageDataType{}), 15718, []string{"GroupVersion", "NetworkMessageNumber", "DataSetOffset", "DataSetClassID", "NetworkMessageContentMask", "DataSetMessageContentMask", "PublishingInterval", "ReceiveOffset", "ProcessingOffset"}},
	{reflect.TypeOf(ua.JSONWriterGroupMessageDataType{}), 15719, []string{"NetworkMessageContentMask"}},
	{reflect.TypeOf(ua.JSONDataSetWriterMessageDataType{}), 15724, []string{"DataSetMessageContentMask"}},
	{reflect.TypeOf(ua.JSONDataSetReaderMessageDataType{}), 15725, []string{"NetworkMessageContentMask", "DataSetMessageContentMask"}},
	{reflect.TypeOf(ua.DatagramConnectionTransportDataType{}), 17468, []string{"DiscoveryAddress"}},
	{reflect.TypeOf(ua.DatagramWriterGroupTransportDataType{}), 21155, []string{"MessageRepeatCount", "MessageRepeatDelay"}},
	{reflect.TypeOf(ua.BrokerConnectionTransportDataType{}), 15479, []string{"ResourceURI", "AuthenticationProfileURI"}},
	{reflect.TypeOf(ua.BrokerWriterGroupTransportDataType{}), 15727, []string{"QueueName", "ResourceURI", "AuthenticationProfileURI", "RequestedDeliveryGuarantee"}},
	{reflect.TypeOf(ua.BrokerDataSetWriterTransportDataType{}), 15729, []string{"QueueName", "ResourceURI", "AuthenticationProfileURI", "RequestedDeliveryGuarantee", "MetaDataQueueName", "MetaDataUpdateTime"}},
	{reflect.TypeOf(ua.BrokerDataSetReaderTransportDataType{}), 15733, []string{"QueueName", "ResourceURI", "AuthenticationProfileURI", "RequestedDeliveryGuarantee", "MetaDataQueueName"}},
	{reflect.TypeOf(ua.AliasNameDataType{}), 23499, []string{"AliasName", "ReferencedNodes"}},
	{reflect.TypeOf(ua.RolePermissionType{}), 128, []string{"RoleID", "Permissions"}},
	{reflect.TypeOf(ua.StructureField{}), 14844, []string{"Name", "Description", "DataType", "ValueRank", "ArrayDimensions", "MaxStringLength", "IsOptional"}},
	{reflect.TypeOf(ua.StructureDefinition{}), 122, []string{"DefaultEncodingID", "BaseDataType", "StructureType", "Fields"}},
	{reflect.TypeOf(ua.EnumDefinition{}), 123, []string{"Fields"}},
	{reflect.TypeOf(ua.Argument{}), 298, []string{"Name", "DataType", "ValueRank", "ArrayDimensions", "Description"}},
	{reflect.TypeOf(ua.EnumValueType{}), 8251, []string{"Value", "DisplayName", "Description"}},
	{reflect.TypeOf(ua.EnumField{}), 14845, []string{"Value", "DisplayName", "Description", "Name"}},
	{reflect.TypeOf(ua.OptionSet{}), 12765, []string{"Value", "ValidBits"}},
	{reflect.TypeOf(ua.Union{}), 12766, []string{}},
	{reflect.TypeOf(ua.TimeZoneDataType{}), 8917, []string{"Offset", "DaylightSavingInOffset"}},
	{reflect.TypeOf(ua.ApplicationDescription{}), 310, []string{"ApplicationURI", "ProductURI", "ApplicationName", "ApplicationType", "GatewayServerURI", "DiscoveryProfileURI", "DiscoveryURLs"}},
	{reflect.TypeOf(ua.RequestHeader{}), 391, []string{"AuthenticationToken", "Timestamp", "RequestHandle", "ReturnDiagnostics", "AuditEntryID", "TimeoutHint", "AdditionalHeader"}},
	{reflect.TypeOf(ua.ResponseHeader{}), 394, []string{"Timestamp", "RequestHandle", "ServiceResult", "ServiceDiagnostics", "StringTable", "AdditionalHeader"}},
	{reflect.TypeOf(ua.ServiceFault{}), 397, []string{"ResponseHeader"}},
	{reflect.TypeOf(ua.SessionlessInvokeRequestType{}), 15903, []string{"URIsVersion", "NamespaceURIs", "ServerURIs", "LocaleIDs", "ServiceID"}},
	{reflect.TypeOf(ua.SessionlessInvokeResponseType{}), 21001, []string{"NamespaceURIs", "ServerURIs", "ServiceID"}},
	{reflect.TypeOf(ua.FindServersRequest{}), 422, []string{"RequestHeader", "EndpointURL", "LocaleIDs", "ServerURIs"}},
	{reflect.TypeOf(ua.FindServersResponse{}), 425, []string{"ResponseHeader", "Servers"}},
	{reflect.TypeOf(ua.ServerOnNetwork{}), 12207, []string{"RecordID", "ServerName", "DiscoveryURL", "ServerCapabilities"}},
	{reflect.TypeOf(ua.FindServersOnNetworkRequest{}), 12208, []string{"RequestHeader", "StartingRecordID", "MaxRecordsToReturn", "ServerCapabilityFilter"}},
	{reflect.TypeOf(ua.FindServersOnNetworkResponse{}), 12209, []string{"ResponseHeader", "LastCounterResetTime", "Servers"}},
	{reflect.TypeOf(ua.UserTokenPolicy{}), 306, []string{"PolicyID", "TokenType", "IssuedTokenType", "IssuerEndpointURL", "SecurityPolicyURI"}},
	{reflect.TypeOf(ua.EndpointDescription{}), 314, []string{"EndpointURL", "Server", "ServerCertificate", "SecurityMode", "SecurityPolicyURI", "UserIdentityTokens", "TransportProfileURI", "SecurityLevel"}},
	{reflect.TypeOf(ua.GetEndpointsRequest{}), 428, []string{"RequestHeader", "EndpointURL", "LocaleIDs", "ProfileURIs"}},
	{reflect.TypeOf(ua.GetEndpointsResponse{}), 431, []string{"ResponseHeader", "Endpoints"}},
	{reflect.TypeOf(ua.RegisteredServer{}), 434, []string{"ServerURI", "ProductURI", "ServerNames", "ServerType", "GatewayServerURI", "DiscoveryURLs", "SemaphoreFilePath", "IsOnline"}},
	{reflect.TypeOf(ua.RegisterServerRequest{}), 437, []string{"RequestHeader", "Server"}},
	{reflect.TypeOf(ua.RegisterServerResponse{}), 440, []string{"ResponseHeader"}},
	{reflect.TypeOf(ua.DiscoveryConfiguration{}), 12900, []string{}},
	{reflect.TypeOf(ua.MdnsDiscoveryConfiguration{}), 12901, []string{"MdnsServerName", "ServerCapabilities"}},
	{reflect.TypeOf(ua.RegisterServer2Request{}), 12211, []string{"RequestHeader", "Server", "DiscoveryConfiguration"}},
	{reflect.TypeOf(ua.RegisterServer2Response{}), 12212, []string{"ResponseHeader", "ConfigurationResults", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.ChannelSecurityToken{}), 443, []string{"ChannelID", "TokenID", "CreatedAt", "RevisedLifetime"}},
	{reflect.TypeOf(ua.OpenSecureChannelRequest{}), 446, []string{"RequestHeader", "ClientProtocolVersion", "RequestType", "SecurityMode", "ClientNonce", "RequestedLifetime"}},
	{reflect.TypeOf(ua.OpenSecureChannelResponse{}), 449, []string{"ResponseHeader", "ServerProtocolVersion", "SecurityToken", "ServerNonce"}},
	{reflect.TypeOf(ua.CloseSecureChannelRequest{}), 452, []string{"RequestHeader"}},
	{reflect.TypeOf(ua.CloseSecureChannelResponse{}), 455, []string{"ResponseHeader"}},
	{reflect.TypeOf(ua.SignedSoftwareCertificate{}), 346, []string{"CertificateData", "Signature"}},
	{reflect.TypeOf(ua.SignatureData{}), 458, []string{"Algorithm", "Signature"}},
	{reflect.TypeOf(ua.CreateSessionRequest{}), 461, []string{"RequestHeader", "ClientDescription", "ServerURI", "EndpointURL", "SessionName", "ClientNonce", "ClientCertificate", "RequestedSessionTimeout", "MaxResponseMessageSize"}},
	{reflect.TypeOf(ua.CreateSessionResponse{}), 464, []string{"ResponseHeader", "SessionID", "AuthenticationToken", "RevisedSessionTimeout", "ServerNonce", "ServerCertificate", "ServerEndpoints", "ServerSoftwareCertificates", "ServerSignature", "MaxRequestMessageSize"}},
	{reflect.TypeOf(ua.UserIdentityToken{}), 318, []string{"PolicyID"}},
	{reflect.TypeOf(ua.AnonymousIdentityToken{}), 321, []string{"PolicyID"}},
	{reflect.TypeOf(ua.UserNameIdentityToken{}), 324, []string{"PolicyID", "UserName", "Password", "EncryptionAlgorithm"}},
	{reflect.TypeOf(ua.X509IdentityToken{}), 327, []string{"PolicyID", "CertificateData"}},
	{reflect.TypeOf(ua.IssuedIdentityToken{}), 940, []string{"PolicyID", "TokenData", "EncryptionAlgorithm"}},
	{reflect.TypeOf(ua.ActivateSessionRequest{}), 467, []string{"RequestHeader", "ClientSignature", "ClientSoftwareCertificates", "LocaleIDs", "UserIdentityToken", "UserTokenSignature"}},
	{reflect.TypeOf(ua.ActivateSessionResponse{}), 470, []string{"ResponseHeader", "ServerNonce", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.CloseSessionRequest{}), 473, []string{"RequestHeader", "DeleteSubscriptions"}},
	{reflect.TypeOf(ua.CloseSessionResponse{}), 476, []string{"ResponseHeader"}},
	{reflect.TypeOf(ua.CancelRequest{}), 479, []string{"RequestHeader", "RequestHandle"}},
	{reflect.TypeOf(ua.CancelResponse{}), 482, []string{"ResponseHeader", "CancelCount"}},
	{reflect.TypeOf(ua.NodeAttributes{}), 351, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask"}},
	{reflect.TypeOf(ua.ObjectAttributes{}), 354, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "EventNotifier"}},
	{reflect.TypeOf(ua.VariableAttributes{}), 357, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "Value", "DataType", "ValueRank", "ArrayDimensions", "AccessLevel", "UserAccessLevel", "MinimumSamplingInterval", "Historizing"}},
	{reflect.TypeOf(ua.MethodAttributes{}), 360, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "Executable", "UserExecutable"}},
	{reflect.TypeOf(ua.ObjectTypeAttributes{}), 363, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "IsAbstract"}},
	{reflect.TypeOf(ua.VariableTypeAttributes{}), 366, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "Value", "DataType", "ValueRank", "ArrayDimensions", "IsAbstract"}},
	{reflect.TypeOf(ua.ReferenceTypeAttributes{}), 369, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "IsAbstract", "Symmetric", "InverseName"}},
	{reflect.TypeOf(ua.DataTypeAttributes{}), 372, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "IsAbstract"}},
	{reflect.TypeOf(ua.ViewAttributes{}), 375, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "ContainsNoLoops", "EventNotifier"}},
	{reflect.TypeOf(ua.GenericAttributeValue{}), 17610, []string{"AttributeID", "Value"}},
	{reflect.TypeOf(ua.GenericAttributes{}), 17611, []string{"SpecifiedAttributes", "DisplayName", "Description", "WriteMask", "UserWriteMask", "AttributeValues"}},
	{reflect.TypeOf(ua.AddNodesItem{}), 378, []string{"ParentNodeID", "ReferenceTypeID", "RequestedNewNodeID", "BrowseName", "NodeClass", "NodeAttributes", "TypeDefinition"}},
	{reflect.TypeOf(ua.AddNodesResult{}), 485, []string{"StatusCode", "AddedNodeID"}},
	{reflect.TypeOf(ua.AddNodesRequest{}), 488, []string{"RequestHeader", "NodesToAdd"}},
	{reflect.TypeOf(ua.AddNodesResponse{}), 491, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.AddReferencesItem{}), 381, []string{"SourceNodeID", "ReferenceTypeID", "IsForward", "TargetServerURI", "TargetNodeID", "TargetNodeClass"}},
	{reflect.TypeOf(ua.AddReferencesRequest{}), 494, []string{"RequestHeader", "ReferencesToAdd"}},
	{reflect.TypeOf(ua.AddReferencesResponse{}), 497, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.DeleteNodesItem{}), 384, []string{"NodeID", "DeleteTargetReferences"}},
	{reflect.TypeOf(ua.DeleteNodesRequest{}), 500, []string{"RequestHeader", "NodesToDelete"}},
	{reflect.TypeOf(ua.DeleteNodesResponse{}), 503, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.DeleteReferencesItem{}), 387, []string{"SourceNodeID", "ReferenceTypeID", "IsForward", "TargetNodeID", "DeleteBidirectional"}},
	{reflect.TypeOf(ua.DeleteReferencesRequest{}), 506, []string{"RequestHeader", "ReferencesToDelete"}},
	{reflect.TypeOf(ua.DeleteReferencesResponse{}), 509, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.ViewDescription{}), 513, []string{"ViewID", "Timestamp", "ViewVersion"}},
	{reflect.TypeOf(ua.BrowseDescription{}), 516, []string{"NodeID", "BrowseDirection", "ReferenceTypeID", "IncludeSubtypes", "NodeClassMask", "ResultMask"}},
	{reflect.TypeOf(ua.ReferenceDescription{}), 520, []string{"ReferenceTypeID", "IsForward", "NodeID", "BrowseName", "DisplayName", "NodeClass", "TypeDefinition"}},
	{reflect.TypeOf(ua.BrowseResult{}), 524, []string{"StatusCode", "ContinuationPoint", "References"}},
	{reflect.TypeOf(ua.BrowseRequest{}), 527, []string{"RequestHeader", "View", "RequestedMaxReferencesPerNode", "NodesToBrowse"}},
	{reflect.TypeOf(ua.BrowseResponse{}), 530, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.BrowseNextRequest{}), 533, []string{"RequestHeader", "ReleaseContinuationPoints", "ContinuationPoints"}},
	{reflect.TypeOf(ua.BrowseNextResponse{}), 536, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.RelativePathElement{}), 539, []string{"ReferenceTypeID", "IsInverse", "IncludeSubtypes", "TargetName"}},
	{reflect.TypeOf(ua.RelativePath{}), 542, []string{"Elements"}},
	{reflect.TypeOf(ua.BrowsePath{}), 545, []string{"StartingNode", "RelativePath"}},
	{reflect.TypeOf(ua.BrowsePathTarget{}), 548, []string{"TargetID", "RemainingPathIndex"}},
	{reflect.TypeOf(ua.BrowsePathResult{}), 551, []string{"StatusCode", "Targets"}},
	{reflect.TypeOf(ua.TranslateBrowsePathsToNodeIDsRequest{}), 554, []string{"RequestHeader", "BrowsePaths"}},
	{reflect.TypeOf(ua.TranslateBrowsePathsToNodeIDsResponse{}), 557, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.RegisterNodesRequest{}), 560, []string{"RequestHeader", "NodesToRegister"}},
	{reflect.TypeOf(ua.RegisterNodesResponse{}), 563, []string{"ResponseHeader", "RegisteredNodeIDs"}},
	{reflect.TypeOf(ua.UnregisterNodesRequest{}), 566, []string{"RequestHeader", "NodesToUnregister"}},
	{reflect.TypeOf(ua.UnregisterNodesResponse{}), 569, []string{"ResponseHeader"}},
	{reflect.TypeOf(ua.EndpointConfiguration{}), 333, []string{"OperationTimeout", "UseBinaryEncoding", "MaxStringLength", "MaxByteStringLength", "MaxArrayLength", "MaxMessageSize", "MaxBufferSize", "ChannelLifetime", "SecurityTokenLifetime"}},
	{reflect.TypeOf(ua.QueryDataDescription{}), 572, []string{"RelativePath", "AttributeID", "IndexRange"}},
	{reflect.TypeOf(ua.NodeTypeDescription{}), 575, []string{"TypeDefinitionNode", "IncludeSubTypes", "DataToReturn"}},
	{reflect.TypeOf(ua.QueryDataSet{}), 579, []string{"NodeID", "TypeDefinitionNode", "Values"}},
	{reflect.TypeOf(ua.NodeReference{}), 582, []string{"NodeID", "ReferenceTypeID", "IsForward", "ReferencedNodeIDs"}},
	{reflect.TypeOf(ua.ContentFilterElement{}), 585, []string{"FilterOperator", "FilterOperands"}},
	{reflect.TypeOf(ua.ContentFilter{}), 588, []string{"Elements"}},
	{reflect.TypeOf(ua.FilterOperand{}), 591, []string{}},
	{reflect.TypeOf(ua.ElementOperand{}), 594, []string{"Index"}},
	{reflect.TypeOf(ua.LiteralOperand{}), 597, []string{"Value"}},
	{reflect.TypeOf(ua.AttributeOperand{}), 600, []string{"NodeID", "Alias", "BrowsePath", "AttributeID", "IndexRange"}},
	{reflect.TypeOf(ua.SimpleAttributeOperand{}), 603, []string{"TypeDefinitionID", "BrowsePath", "AttributeID", "IndexRange"}},
	{reflect.TypeOf(ua.ContentFilterElementResult{}), 606, []string{"StatusCode", "OperandStatusCodes", "OperandDiagnosticInfos"}},
	{reflect.TypeOf(ua.ContentFilterResult{}), 609, []string{"ElementResults", "ElementDiagnosticInfos"}},
	{reflect.TypeOf(ua.ParsingResult{}), 612, []string{"StatusCode", "DataStatusCodes", "DataDiagnosticInfos"}},
	{reflect.TypeOf(ua.QueryFirstRequest{}), 615, []string{"RequestHeader", "View", "NodeTypes", "Filter", "MaxDataSetsToReturn", "MaxReferencesToReturn"}},
	{reflect.TypeOf(ua.QueryFirstResponse{}), 618, []string{"ResponseHeader", "QueryDataSets", "ContinuationPoint", "ParsingResults", "DiagnosticInfos", "FilterResult"}},
	{reflect.TypeOf(ua.QueryNextRequest{}), 621, []string{"RequestHeader", "ReleaseContinuationPoint", "ContinuationPoint"}},
	{reflect.TypeOf(ua.QueryNextResponse{}), 624, []string{"ResponseHeader", "QueryDataSets", "RevisedContinuationPoint"}},
	{reflect.TypeOf(ua.ReadValueID{}), 628, []string{"NodeID", "AttributeID", "IndexRange", "DataEncoding"}},
	{reflect.TypeOf(ua.ReadRequest{}), 631, []string{"RequestHeader", "MaxAge", "TimestampsToReturn", "NodesToRead"}},
	{reflect.TypeOf(ua.ReadResponse{}), 634, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.HistoryReadValueID{}), 637, []string{"NodeID", "IndexRange", "DataEncoding", "ContinuationPoint"}},
	{reflect.TypeOf(ua.HistoryReadResult{}), 640, []string{"StatusCode", "ContinuationPoint", "HistoryData"}},
	{reflect.TypeOf(ua.HistoryReadDetails{}), 643, []string{}},
	{reflect.TypeOf(ua.ReadEventDetails{}), 646, []string{"NumValuesPerNode", "StartTime", "EndTime", "Filter"}},
	{reflect.TypeOf(ua.ReadRawModifiedDetails{}), 649, []string{"IsReadModified", "StartTime", "EndTime", "NumValuesPerNode", "ReturnBounds"}},
	{reflect.TypeOf(ua.ReadProcessedDetails{}), 652, []string{"StartTime", "EndTime", "ProcessingInterval", "AggregateType", "AggregateConfiguration"}},
	{reflect.TypeOf(ua.ReadAtTimeDetails{}), 655, []string{"ReqTimes", "UseSimpleBounds"}},
	{reflect.TypeOf(ua.ReadAnnotationDataDetails{}), 23500, []string{"ReqTimes"}},
	{reflect.TypeOf(ua.HistoryData{}), 658, []string{"DataValues"}},
	{reflect.TypeOf(ua.ModificationInfo{}), 11226, []string{"ModificationTime", "UpdateType", "UserName"}},
	{reflect.TypeOf(ua.HistoryModifiedData{}), 11227, []string{"DataValues", "ModificationInfos"}},
	{reflect.TypeOf(ua.HistoryEvent{}), 661, []string{"Events"}},
	{reflect.TypeOf(ua.HistoryReadRequest{}), 664, []string{"RequestHeader", "HistoryReadDetails", "TimestampsToReturn", "ReleaseContinuationPoints", "NodesToRead"}},
	{reflect.TypeOf(ua.HistoryReadResponse{}), 667, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.WriteValue{}), 670, []string{"NodeID", "AttributeID", "IndexRange", "Value"}},
	{reflect.TypeOf(ua.WriteRequest{}), 673, []string{"RequestHeader", "NodesToWrite"}},
	{reflect.TypeOf(ua.WriteResponse{}), 676, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.HistoryUpdateDetails{}), 679, []string{"NodeID"}},
	{reflect.TypeOf(ua.UpdateDataDetails{}), 682, []string{"NodeID", "PerformInsertReplace", "UpdateValues"}},
	{reflect.TypeOf(ua.UpdateStructureDataDetails{}), 11300, []string{"NodeID", "PerformInsertReplace", "UpdateValues"}},
	{reflect.TypeOf(ua.UpdateEventDetails{}), 685, []string{"NodeID", "PerformInsertReplace", "Filter", "EventData"}},
	{reflect.TypeOf(ua.DeleteRawModifiedDetails{}), 688, []string{"NodeID", "IsDeleteModified", "StartTime", "EndTime"}},
	{reflect.TypeOf(ua.DeleteAtTimeDetails{}), 691, []string{"NodeID", "ReqTimes"}},
	{reflect.TypeOf(ua.DeleteEventDetails{}), 694, []string{"NodeID", "EventIDs"}},
	{reflect.TypeOf(ua.HistoryUpdateResult{}), 697, []string{"StatusCode", "OperationResults", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.HistoryUpdateRequest{}), 700, []string{"RequestHeader", "HistoryUpdateDetails"}},
	{reflect.TypeOf(ua.HistoryUpdateResponse{}), 703, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.CallMethodRequest{}), 706, []string{"ObjectID", "MethodID", "InputArguments"}},
	{reflect.TypeOf(ua.CallMethodResult{}), 709, []string{"StatusCode", "InputArgumentResults", "InputArgumentDiagnosticInfos", "OutputArguments"}},
	{reflect.TypeOf(ua.CallRequest{}), 712, []string{"RequestHeader", "MethodsToCall"}},
	{reflect.TypeOf(ua.CallResponse{}), 715, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.MonitoringFilter{}), 721, []string{}},
	{reflect.TypeOf(ua.DataChangeFilter{}), 724, []string{"Trigger", "DeadbandType", "DeadbandValue"}},
	{reflect.TypeOf(ua.EventFilter{}), 727, []string{"SelectClauses", "WhereClause"}},
	{reflect.TypeOf(ua.AggregateConfiguration{}), 950, []string{"UseServerCapabilitiesDefaults", "TreatUncertainAsBad", "PercentDataBad", "PercentDataGood", "UseSlopedExtrapolation"}},
	{reflect.TypeOf(ua.AggregateFilter{}), 730, []string{"StartTime", "AggregateType", "ProcessingInterval", "AggregateConfiguration"}},
	{reflect.TypeOf(ua.MonitoringFilterResult{}), 733, []string{}},
	{reflect.TypeOf(ua.EventFilterResult{}), 736, []string{"SelectClauseResults", "SelectClauseDiagnosticInfos", "WhereClauseResult"}},
	{reflect.TypeOf(ua.AggregateFilterResult{}), 739, []string{"RevisedStartTime", "RevisedProcessingInterval", "RevisedAggregateConfiguration"}},
	{reflect.TypeOf(ua.MonitoringParameters{}), 742, []string{"ClientHandle", "SamplingInterval", "Filter", "QueueSize", "DiscardOldest"}},
	{reflect.TypeOf(ua.MonitoredItemCreateRequest{}), 745, []string{"ItemToMonitor", "MonitoringMode", "RequestedParameters"}},
	{reflect.TypeOf(ua.MonitoredItemCreateResult{}), 748, []string{"StatusCode", "MonitoredItemID", "RevisedSamplingInterval", "RevisedQueueSize", "FilterResult"}},
	{reflect.TypeOf(ua.CreateMonitoredItemsRequest{}), 751, []string{"RequestHeader", "SubscriptionID", "TimestampsToReturn", "ItemsToCreate"}},
	{reflect.TypeOf(ua.CreateMonitoredItemsResponse{}), 754, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.MonitoredItemModifyRequest{}), 757, []string{"MonitoredItemID", "RequestedParameters"}},
	{reflect.TypeOf(ua.MonitoredItemModifyResult{}), 760, []string{"StatusCode", "RevisedSamplingInterval", "RevisedQueueSize", "FilterResult"}},
	{reflect.TypeOf(ua.ModifyMonitoredItemsRequest{}), 763, []string{"RequestHeader", "SubscriptionID", "TimestampsToReturn", "ItemsToModify"}},
	{reflect.TypeOf(ua.ModifyMonitoredItemsResponse{}), 766, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.SetMonitoringModeRequest{}), 769, []string{"RequestHeader", "SubscriptionID", "MonitoringMode", "MonitoredItemIDs"}},
	{reflect.TypeOf(ua.SetMonitoringModeResponse{}), 772, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.SetTriggeringRequest{}), 775, []string{"RequestHeader", "SubscriptionID", "TriggeringItemID", "LinksToAdd", "LinksToRemove"}},
	{reflect.TypeOf(ua.SetTriggeringResponse{}), 778, []string{"ResponseHeader", "AddResults", "AddDiagnosticInfos", "RemoveResults", "RemoveDiagnosticInfos"}},
	{reflect.TypeOf(ua.DeleteMonitoredItemsRequest{}), 781, []string{"RequestHeader", "SubscriptionID", "MonitoredItemIDs"}},
	{reflect.TypeOf(ua.DeleteMonitoredItemsResponse{}), 784, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.CreateSubscriptionRequest{}), 787, []string{"RequestHeader", "RequestedPublishingInterval", "RequestedLifetimeCount", "RequestedMaxKeepAliveCount", "MaxNotificationsPerPublish", "PublishingEnabled", "Priority"}},
	{reflect.TypeOf(ua.CreateSubscriptionResponse{}), 790, []string{"ResponseHeader", "SubscriptionID", "RevisedPublishingInterval", "RevisedLifetimeCount", "RevisedMaxKeepAliveCount"}},
	{reflect.TypeOf(ua.ModifySubscriptionRequest{}), 793, []string{"RequestHeader", "SubscriptionID", "RequestedPublishingInterval", "RequestedLifetimeCount", "RequestedMaxKeepAliveCount", "MaxNotificationsPerPublish", "Priority"}},
	{reflect.TypeOf(ua.ModifySubscriptionResponse{}), 796, []string{"ResponseHeader", "RevisedPublishingInterval", "RevisedLifetimeCount", "RevisedMaxKeepAliveCount"}},
	{reflect.TypeOf(ua.SetPublishingModeRequest{}), 799, []string{"RequestHeader", "PublishingEnabled", "SubscriptionIDs"}},
	{reflect.TypeOf(ua.SetPublishingModeResponse{}), 802, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.NotificationMessage{}), 805, []string{"SequenceNumber", "PublishTime", "NotificationData"}},
	{reflect.TypeOf(ua.NotificationData{}), 947, []string{}},
	{reflect.TypeOf(ua.DataChangeNotification{}), 811, []string{"MonitoredItems", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.MonitoredItemNotification{}), 808, []string{"ClientHandle", "Value"}},
	{reflect.TypeOf(ua.EventNotificationList{}), 916, []string{"Events"}},
	{reflect.TypeOf(ua.EventFieldList{}), 919, []string{"ClientHandle", "EventFields"}},
	{reflect.TypeOf(ua.HistoryEventFieldList{}), 922, []string{"EventFields"}},
	{reflect.TypeOf(ua.StatusChangeNotification{}), 820, []string{"Status", "DiagnosticInfo"}},
	{reflect.TypeOf(ua.SubscriptionAcknowledgement{}), 823, []string{"SubscriptionID", "SequenceNumber"}},
	{reflect.TypeOf(ua.PublishRequest{}), 826, []string{"RequestHeader", "SubscriptionAcknowledgements"}},
	{reflect.TypeOf(ua.PublishResponse{}), 829, []string{"ResponseHeader", "SubscriptionID", "AvailableSequenceNumbers", "MoreNotifications", "NotificationMessage", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.RepublishRequest{}), 832, []string{"RequestHeader", "SubscriptionID", "RetransmitSequenceNumber"}},
	{reflect.TypeOf(ua.RepublishResponse{}), 835, []string{"ResponseHeader", "NotificationMessage"}},
	{reflect.TypeOf(ua.TransferResult{}), 838, []string{"StatusCode", "AvailableSequenceNumbers"}},
	{reflect.TypeOf(ua.TransferSubscriptionsRequest{}), 841, []string{"RequestHeader", "SubscriptionIDs", "SendInitialValues"}},
	{reflect.TypeOf(ua.TransferSubscriptionsResponse{}), 844, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.DeleteSubscriptionsRequest{}), 847, []string{"RequestHeader", "SubscriptionIDs"}},
	{reflect.TypeOf(ua.DeleteSubscriptionsResponse{}), 850, []string{"ResponseHeader", "Results", "DiagnosticInfos"}},
	{reflect.TypeOf(ua.BuildInfo{}), 340, []string{"ProductURI", "ManufacturerName", "ProductName", "SoftwareVersion", "BuildNumber", "BuildDate"}},
	{reflect.TypeOf(ua.RedundantServerDataType{}), 855, []string{"ServerID", "ServiceLevel", "ServerState"}},
	{reflect.TypeOf(ua.EndpointURLListDataType{}), 11957, []string{"EndpointURLList"}},
	{reflect.TypeOf(ua.NetworkGroupDataType{}), 11958, []string{"ServerURI", "NetworkPaths"}},
	{reflect.TypeOf(ua.SamplingIntervalDiagnosticsDataType{}), 858, []string{"SamplingInterval", "MonitoredItemCount", "MaxMonitoredItemCount", "DisabledMonitoredItemCount"}},
	{reflect.TypeOf(ua.ServerDiagnosticsSummaryDataType{}), 861, []string{"ServerViewCount", "CurrentSessionCount", "CumulatedSessionCount", "SecurityRejectedSessionCount", "RejectedSessionCount", "SessionTimeoutCount", "SessionAbortCount", "CurrentSubscriptionCount", "CumulatedSubscriptionCount", "PublishingIntervalCount", "SecurityRejectedRequestsCount", "RejectedRequestsCount"}},
	{reflect.TypeOf(ua.ServerStatusDataType{}), 864, []string{"StartTime", "CurrentTime", "State", "BuildInfo", "SecondsTillShutdown", "ShutdownReason"}},
	{reflect.TypeOf(ua.SessionDiagnosticsDataType{}), 867, []string{"SessionID", "SessionName", "ClientDescription", "ServerURI", "EndpointURL", "LocaleIDs", "ActualSessionTimeout", "MaxResponseMessageSize", "ClientConnectionTime", "ClientLastContactTime", "CurrentSubscriptionsCount", "CurrentMonitoredItemsCount", "CurrentPublishRequestsInQueue", "TotalRequestCount", "UnauthorizedRequestCount", "ReadCount", "HistoryReadCount", "WriteCount", "HistoryUpdateCount", "CallCount", "CreateMonitoredItemsCount", "ModifyMonitoredItemsCount", "SetMonitoringModeCount", "SetTriggeringCount", "DeleteMonitoredItemsCount", "CreateSubscriptionCount", "ModifySubscriptionCount", "SetPublishingModeCount", "PublishCount", "RepublishCount", "TransferSubscriptionsCount", "DeleteSubscriptionsCount", "AddNodesCount", "AddReferencesCount", "DeleteNodesCount", "DeleteReferencesCount", "BrowseCount", "BrowseNextCount", "TranslateBrowsePathsToNodeIDsCount", "QueryFirstCount", "QueryNextCount", "RegisterNodesCount", "UnregisterNodesCount"}},
	{reflect.TypeOf(ua.SessionSecurityDiagnosticsDataType{}), 870, []string{"SessionID", "ClientUserIDOfSession", "ClientUserIDHistory", "AuthenticationMechanism", "Encoding", "TransportProtocol", "SecurityMode", "SecurityPolicyURI", "ClientCertificate"}},
	{reflect.TypeOf(ua.ServiceCounterDataType{}), 873, []string{"TotalCount", "ErrorCount"}},
	{reflect.TypeOf(ua.StatusResult{}), 301, []string{"StatusCode", "DiagnosticInfo"}},
	{reflect.TypeOf(ua.SubscriptionDiagnosticsDataType{}), 876, []string{"SessionID", "SubscriptionID", "Priority", "PublishingInterval", "MaxKeepAliveCount", "MaxLifetimeCount", "MaxNotificationsPerPublish", "PublishingEnabled", "ModifyCount", "EnableCount", "DisableCount", "RepublishRequestCount", "RepublishMessageRequestCount", "RepublishMessageCount", "TransferRequestCount", "TransferredToAltClientCount", "TransferredToSameClientCount", "PublishRequestCount", "DataChangeNotificationsCount", "EventNotificationsCount", "NotificationsCount", "LatePublishRequestCount", "CurrentKeepAliveCount", "CurrentLifetimeCount", "UnacknowledgedMessageCount", "DiscardedMessageCount", "MonitoredItemCount", "DisabledMonitoredItemCount", "MonitoringQueueOverflowCount", "NextSequenceNumber", "EventQueueOverFlowCount"}},
	{reflect.TypeOf(ua.ModelChangeStructureDataType{}), 879, []string{"Affected", "AffectedType", "Verb"}},
	{reflect.TypeOf(ua.SemanticChangeStructureDataType{}), 899, []string{"Affected", "AffectedType"}},
	{reflect.TypeOf(ua.Range{}), 886, []string{"Low", "High"}},
	{reflect.TypeOf(ua.EUInformation{}), 889, []string{"NamespaceURI", "UnitID", "DisplayName", "Description"}},
	{reflect.TypeOf(ua.ComplexNumberType{}), 12181, []string{"Real", "Imaginary"}},
	{reflect.TypeOf(ua.DoubleComplexNumberType{}), 12182, []string{"Real", "Imaginary"}},
	{reflect.TypeOf(ua.AxisInformation{}), 12089, []string{"EngineeringUnits", "EURange", "Title", "AxisScaleType", "AxisSteps"}},
	{reflect.TypeOf(ua.XVType{}), 12090, []string{"X", "Value"}},
	{reflect.TypeOf(ua.ProgramDiagnosticDataType{}), 896, []string{"CreateSessionID", "CreateClientName", "InvocationCreationTime", "LastTransitionTime", "LastMethodCall", "LastMethodSessionID", "LastMethodInputArguments", "LastMethodOutputArguments", "LastMethodCallTime", "LastMethodReturnStatus"}},
	{reflect.TypeOf(ua.ProgramDiagnostic2DataType{}), 15397, []string{"CreateSessionID", "CreateClientName", "InvocationCreationTime", "LastTransitionTime", "LastMethodCall", "LastMethodSessionID", "LastMethodInputArguments", "LastMethodOutputArguments", "LastMethodInputValues", "LastMethodOutputValues", "LastMethodCallTime", "LastMethodReturnStatus"}},
	{reflect.TypeOf(ua.Annotation{}), 893, []string{"Message", "UserName", "AnnotationTime"}},
}
