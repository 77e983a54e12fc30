//! The model's own description of everything a telegram can mean.
//!
//! These types deliberately repeat the names of the library's public types, so that their derived
//! `Debug` text is what the library is expected to report. Nothing here calls the library.
#![allow(dead_code)]

#[derive(Debug, Clone, PartialEq)]
pub enum PrimaryControlMessage {
	ResetRemoteLink,
	ResetUserProcess,
	SendUserDataConfirmed,
	SendUserDataUnconfirmed,
	RequestAccessDemand,
	RequestLinkStatus,
	RequestUserData1,
	RequestUserData2,
}

#[derive(Debug, Clone, PartialEq)]
pub enum SecondaryControlMessage {
	ACK,
	NACK,
	UserData,
	UserDataUnavailable,
	Status,
	LinkNotFunctioning,
	LinkNotImplemented,
}

#[derive(Debug, Clone, PartialEq)]
pub enum DataFlowControl {
	Continue,
	Pause,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Control {
	Primary {
		frame_count_bit: bool,
		message: PrimaryControlMessage,
	},
	Secondary {
		access_demand: bool,
		data_flow_control: DataFlowControl,
		message: SecondaryControlMessage,
	},
}

#[derive(Debug, Clone, PartialEq)]
pub enum Packet {
	Ack,
	Short {
		control: Control,
		address: u8,
	},
	Long {
		control: Control,
		address: u8,
		message: MBusMessage,
	},
}

#[derive(Debug, Clone, PartialEq)]
pub enum BaudRate {
	Rate300,
	Rate600,
	Rate1200,
	Rate2400,
	Rate4800,
	Rate9600,
	Rate19200,
	Rate38400,
}

#[derive(Debug, Clone, PartialEq)]
pub enum MBusMessage {

	ApplicationReset(TPLHeader),
	ApplicationSelect(TPLHeader, ApplicationMessage),
	SelectedApplicationRequest(TPLHeader),
	SelectedApplicationResponse(TPLHeader, ApplicationMessage),

	SelectionOfDevice(Vec<u8>),
	SetBaudRate(BaudRate),
	SynchroniseAction,
	TimeAdjustmentToDevice(TPLHeader, Vec<u8>),
	TimeSyncToDevice(TPLHeader, Vec<u8>),

	AlarmFromDevice(TPLHeader, Vec<u8>),
	ApplicationErrorFromDevice(TPLHeader, ApplicationErrorMessage),
	CommandToDevice(TPLHeader, Vec<u8>),
	ResponseFromDevice(TPLHeader, Frame),

	AuthenticationAndFrgamentation(Vec<u8>),
	Dlms(u8, TPLHeader, Vec<u8>),
	ImageTransfer(u8, TPLHeader, Vec<u8>),
	ManufacturerSpecific(u8, Vec<u8>),
	SecurityTransfer(u8, TPLHeader, Vec<u8>),
	SpecificUsage(u8, TPLHeader, Vec<u8>),
	Wireless(u8, TPLHeader),
}

#[derive(Debug, Clone, PartialEq)]
pub enum ApplicationError {
	None,
	Busy,
	Error,
	Alarm,
}

#[derive(Debug, Clone, PartialEq)]
pub struct MeterStatus {
	pub manufacturer_2: bool,
	pub manufacturer_1: bool,
	pub manufacturer_0: bool,
	pub temporary_error: bool,
	pub permanent_error: bool,
	pub power_low: bool,
	pub application: ApplicationError,
}

#[derive(Debug, Clone, PartialEq)]
pub struct ExtraHeader;

#[derive(Debug, Clone, PartialEq)]
pub enum SecurityMode {
	None,
	Reserved(u16),
}

#[derive(Debug, Clone, PartialEq)]
pub struct ShortHeader {
	pub access_number: u8,
	pub status: MeterStatus,
	pub configuration_field: SecurityMode,
	pub extra_header: Option<ExtraHeader>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum WaterMeterType {
	Potable,
	Irrigation,
	Cold,
	Warm,
	Hot,
	DualRegister,
	Waste,
}

#[derive(Debug, Clone, PartialEq)]
pub enum ThermalMeterType {
	OutletHeat,
	InletHeat,
	OutletCooling,
	InletCooling,
	Combined,
}

#[derive(Debug, Clone, PartialEq)]
pub enum DeviceType {
	Other,
	OilMeter,
	ElectricityMeter,
	GasMeter,
	ThermalEnergyMeter(ThermalMeterType),
	SteamMeter,
	WaterMeter(WaterMeterType),
	HeatCostAllocator,
	CompressedAir,
	BusOrSystemComponent,
	Unknown,
	WaterDataLogger,
	GasDataLogger,
	GasConverter,
	CalorificValue,
	PressureMeter,
	ADConverter,
	SmokeDetector,
	RoomSensor,
	GasDetector,
	ReservedSensor,
	ElectricalBreaker,
	Valve,
	ReservedSwitchingDevice,
	CustomerUnit,
	ReservedCustomerUnit,
	Garbage,
	ReservedCO2,
	ReservedEnvironmental,
	ServiceTool,
	CommunicationController,
	UnidirectionalRepeater,
	BidirectionalRepeater,
	ReservedSystemDevice,
	RadioConverterSystemSide,
	RadioConverterMeterSide,
	BusConverterMeterSide,
	Reserved,
	Wildcard,
}

#[derive(Debug, Clone, PartialEq)]
pub struct LongHeader {
	pub identifier: u32,
	pub manufacturer: String,
	pub device_name: Option<&'static str>,
	pub version: u8,
	pub device_type: DeviceType,
	pub access_number: u8,
	pub status: MeterStatus,
	pub configuration_field: SecurityMode,
	pub extra_header: Option<ExtraHeader>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum TPLHeader {
	None,
	Short(ShortHeader),
	Long(LongHeader),
}

#[derive(Debug, Clone, PartialEq)]
pub enum ApplicationErrorMessage {
	Unspecified,
	CIFieldError,
	BufferOverflow,
	RecordOverflow,
	RecordError,
	DIFEOverflow,
	VIFEOverflow,
	ApplicationBusy,
	CreditOverflow,
	NoFunction,
	DataError,
	RoutingOrRelayingError,
	AccessViolation,
	ParameterError,
	SizeError,
	SecurityError,
	SecurityMechanismNotSupported,
	InadequateSecurityMethod,
	DynamicError(Record),
	ManufacturerSpecific(u8, Vec<u8>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum MessageApplication {
	All,
	UserData,
	SimpleBilling,
	EnhancedBilling,
	MultiTariffBilling,
	InstantaneousValues,
	LoadProfileValuesForManagement,
	StaticContent,
	InstallationAndStartup,
	Testing,
	Calibration,
	Manufacturing,
	Development,
	SelfTest,
	ConfigurationData,
	UserDefinedData,
	ManufacturerSpecific(u8),
}

#[derive(Debug, Clone, PartialEq)]
pub struct ApplicationMessage {

	pub message_application: MessageApplication,
	pub block_number: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Frame {
	pub records: Vec<Record>,
	pub more_data_follows: bool,
	pub manufacturer_specific: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Record {
	pub dib: DataInfoBlock,
	pub vib: ValueInfoBlock,
	pub data: DataType,
}

#[derive(Debug, Clone, PartialEq)]
pub enum RawDataType {
	None,
	Binary(usize),
	Real,
	BCD(usize),
	LVAR,
}

#[derive(Debug, Clone, PartialEq)]
pub enum DataFunction {
	InstantaneousValue,
	MaximumValue,
	MinimumValue,
	ValueDuringErrorState,
}

#[derive(Debug, Clone, PartialEq)]
pub struct DataInfoBlock {
	pub raw_type: RawDataType,
	pub function: DataFunction,
	pub storage: u64,
	pub tariff: u32,
	pub device: u16,
	pub is_obis: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub struct ValueInfoBlock {
	pub value_type: ValueType,
	pub extra_vifes: Option<Vec<u8>>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum VIFTable {
	Table10,
	Table12,
	Table13,
	Table14,
}

#[derive(Debug, Clone, PartialEq)]
pub enum DurationType {
	Seconds,
	Minutes,
	Hours,
	Days,
	Months,
	Years,
}

#[derive(Debug, Clone, PartialEq)]
pub enum EnergyUnit {
	Wh,
	J,
	MWh,
	MCal,
	GJ,
}

#[derive(Debug, Clone, PartialEq)]
pub enum PowerUnit {
	W,
	Jph,
	MW,
	GJph,
}

#[derive(Debug, Clone, PartialEq)]
pub enum VolumeUnit {
	M3,
	Feet3,
}

#[derive(Debug, Clone, PartialEq)]
pub enum MassUnit {
	Kg,
	T,
}

#[derive(Debug, Clone, PartialEq)]
pub enum ValueType {

	Any,
	PlainText(String),
	ManufacturerSpecific,
	RetiredCode(VIFTable, u8),

	ReservedCode(VIFTable, u8),
	Invalid(u8),

	Energy(EnergyUnit, Exponent),
	Volume(VolumeUnit, Exponent),
	Mass(MassUnit, Exponent),
	OnTime(DurationType),
	OperatingTime(DurationType),
	Power(PowerUnit, Exponent),
	VolumeFlow(DurationType, Exponent),
	MassFlow(DurationType, Exponent),
	FlowTemperature(Exponent),
	ReturnTemperature(Exponent),
	TemperatureDifference(Exponent),
	ExternalTemperature(Exponent),
	Pressure(Exponent),
	TypeGDate,
	VariableDateTime,
	TypeFDateTime,
	TypeJTime,
	TypeIDateTime,
	TypeMDatetime,
	HCA,
	AveragingDuration(DurationType),
	ActualityDuration(DurationType),
	FabricationNumber,
	EnhancedIdentification,
	Address,

	Credit(Exponent),
	Debit(Exponent),
	UniqueMessageIdentification,
	DeviceType,
	Manufacturer,
	ParameterSetIdentification,
	ModelVersion,
	HardwareVersionNumber,
	MetrologyFirmwareVersionNumber,
	OtherSoftwareVersionNumber,
	CustomerLocation,
	Customer,
	AccessCodeUser,
	AccessCodeOperator,
	AccessCodeSystemOperator,
	AccessCodeDeveloper,
	Password,
	ErrorFlags,
	ErrorMask,
	SecurityKey,
	DigitalOutput,
	DigitalInput,
	BaudRate,
	ResponseDelayTime,
	Retry,
	RemoteControl,
	FirstStorageNumberForCyclicStorage,
	LastStorageNumberForCyclicStorage,
	SizeOfStorageBlock,
	DescriptorForTariffAndSubunit,
	StorageInterval(DurationType),
	OperatorSpecific,
	TimePointSecond,
	DurationSinceLastReadout(DurationType),
	StartDateTimeOfTariff,
	DurationOfTariff(DurationType),
	PeriodOfTarrif(DurationType),
	Dimensionless,
	WirelessContainer,
	PeriodOfNominalDataTransmissions(DurationType),
	Volts(Exponent),
	Amperes(Exponent),
	ResetCounter,
	CumulationCounter,
	ControlSignal,
	DayOfWeek,
	WeekNumber,
	TimePointOfDayChange,
	StateOfParameterActivation,
	SpecialSupplierInformation,
	DurationSinceLastCumulation(DurationType),
	OperatingTimeBattery(DurationType),
	DateAndTimeOfBatteryChange,
	RFLevel,
	DSTTypeK,
	ListeningWindowManagement,
	RemainingBatteryLife(DurationType),
	NumberTimesMeterStopped,
	ManufacturerSpecificContainer,

	CurrentlySelectedApplication,

	ReactiveEnergy(Exponent),
	ApparentEnergy(Exponent),
	ReactivePower(Exponent),
	RelativeHumidity(Exponent),
	PhaseUU,
	PhaseUI,
	Frequency(Exponent),
	ApparentPower(Exponent),
	ColdWarmTemperatureLimit(Exponent),
	CumulativeMaxOfActivePower(Exponent),
	ResultingPowerFactorK,
	ThermalOutputRatingFactorKq,
	ThermalCouplingRatingFactorOverallKc,
	ThermalCouplingRatingFactorRoomSideKcr,
	ThermalCouplingRatingFactorHeaterSideKch,
	LowTemperatureRatingFactorKt,
	DisplayOutputScalingFactorKD,
}

pub type Exponent = i8;

#[derive(Debug, Clone, PartialEq)]
pub struct TypeFDateTime {
	pub minute: u8,
	pub hour: u8,
	pub day: u8,
	pub month: u8,
	pub year: u8,
	pub hundred_year: u8,
	pub in_dst: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub struct TypeGDate {
	pub day: u8,
	pub month: u8,
	pub year: u8,
}

#[derive(Debug, Clone, PartialEq)]
pub struct TypeIDateTime {
	pub second: u8,
	pub minute: u8,
	pub hour: u8,
	pub day: u8,
	pub month: u8,
	pub year: u8,
	pub day_of_week: u8,
	pub week: u8,
	pub in_dst: bool,
	pub leap_year: bool,
	pub dst_offset: i8,
}

#[derive(Debug, Clone, PartialEq)]
pub struct TypeJTime {
	pub second: u8,
	pub minute: u8,
	pub hour: u8,
}

#[derive(Debug, Clone, PartialEq)]
pub struct TypeKDST {
	pub starts_hour: u8,
	pub starts_day: u8,
	pub starts_month: u8,
	pub ends_day: u8,
	pub ends_month: u8,
	pub enable: bool,
	pub dst_deviation: i8,
	pub local_deviation: u8,
}

#[derive(Debug, Clone, PartialEq)]
pub enum DataType {
	Unsigned(u64),
	Signed(i64),
	Bool(bool),
	Real(f32),
	DateTimeF(TypeFDateTime),
	DateTimeI(TypeIDateTime),
	Date(TypeGDate),
	Time(TypeJTime),
	DST(TypeKDST),
	String(String),
	ErrorValue(String),
	Invalid(Vec<u8>),
	VariableLengthNumber(Vec<u8>),
	ManufacturerSpecific(Vec<u8>),
	None,
}
