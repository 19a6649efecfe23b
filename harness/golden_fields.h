// What the bits and codes of each field mean: one row per description, in the order of the field.
// Reviewed against EMV 4.4 Books 1, 3 and 4, the EMV Contactless Books, ISO 7816-4, ISO 8583 and the header documentation.
// OR: shown if any of the conditions holds, AND: if all do. A condition {byte, mask, value} holds if the masked byte has
// the value, or with ANY if any of the masked bits is set.
#pragma once
#include <vector>
enum { OR, AND, ALWAYS }; enum { ANY = -1 };
struct Cond { unsigned byte; unsigned mask; int value; };
struct Row { const char* text; int kind; std::vector<Cond> conds; };
struct Field { const char *title, *fn, *tmpl; std::vector<unsigned> vary; std::vector<Row> rows; };
static const std::vector<Field> FIELDS = {
{ "terminal type", "emv_term_type_get_string_list", "00", {0}, {
	{ "Operational Control: Merchant", OR, {{0,0x30,0x20}} },
	{ "Operational Control: Cardholder", OR, {{0,0x30,0x30}} },
	{ "Operational Control: Unknown", OR, {{0,0x31,0x01}, {0,0x32,0x02}, {0,0x34,0x04}, {0,0x38,0x08}, {0,0x70,0x40}, {0,0xB0,0x80}} },
	{ "Operational Control: Financial Institution", OR, {{0,0x30,0x10}} },
	{ "Environment: Unattended, online only", OR, {{0,0x07,0x04}} },
	{ "Environment: Attended, offline only", OR, {{0,0x07,0x03}} },
	{ "Environment: Unattended, offline only", OR, {{0,0x07,0x06}} },
	{ "Environment: Unattended, offline with online capability", OR, {{0,0x07,0x05}} },
	{ "Environment: Attended, online only", OR, {{0,0x07,0x01}} },
	{ "Environment: Unknown", OR, {{0,0x07,0x07}, {0,0x0F,0x08}, {0,0x17,0x10}, {0,0x27,0x20}, {0,0x47,0x40}, {0,0x87,0x80}} },
	{ "Environment: Attended, offline with online capability", OR, {{0,0x07,0x02}} },
}, },
{ "terminal capabilities", "emv_term_caps_get_string_list", "000000", {0, 1, 2}, {
	{ "Card Data Input Capability: Manual key entry", OR, {{0,0x80,0x80}} },
	{ "Card Data Input Capability: Magnetic stripe", OR, {{0,0x40,0x40}} },
	{ "Card Data Input Capability: IC with contacts", OR, {{0,0x20,0x20}} },
	{ "Card Data Input Capability: RFU", OR, {{0,0x1F,ANY}} },
	{ "Card Data Input Capability: None", OR, {{0,0xFF,0x00}} },
	{ "CVM Capability: Plaintext PIN for ICC verification", OR, {{1,0x80,0x80}} },
	{ "CVM Capability: Enciphered PIN for online verification", OR, {{1,0x40,0x40}} },
	{ "CVM Capability: Signature", OR, {{1,0x20,0x20}} },
	{ "CVM Capability: Enciphered PIN for offline verification (RSA ODE)", OR, {{1,0x10,0x10}} },
	{ "CVM Capability: No CVM required", OR, {{1,0x08,0x08}} },
	{ "CVM Capability: Online Biometric", OR, {{1,0x04,0x04}} },
	{ "CVM Capability: Offline Biometric", OR, {{1,0x02,0x02}} },
	{ "CVM Capability: Enciphered PIN for offline verification (ECC ODE)", OR, {{1,0x01,0x01}} },
	{ "CVM Capability: None", OR, {{1,0xFF,0x00}} },
	{ "Security Capability: Static Data Authentication (SDA)", OR, {{2,0x80,0x80}} },
	{ "Security Capability: Dynamic Data Authentication (DDA)", OR, {{2,0x40,0x40}} },
	{ "Security Capability: Card capture", OR, {{2,0x20,0x20}} },
	{ "Security Capability: Combined DDA/Application Cryptogram Generation (CDA)", OR, {{2,0x08,0x08}} },
	{ "Security Capability: Extended Data Authentication (XDA)", OR, {{2,0x04,0x04}} },
	{ "Security Capability: RFU", OR, {{2,0x13,ANY}} },
	{ "Security Capability: None", OR, {{2,0xFF,0x00}} },
}, },
{ "additional terminal capabilities", "emv_addl_term_caps_get_string_list", "0000000000", {0, 1, 2, 3, 4}, {
	{ "Transaction Type Capability: Cash", OR, {{0,0x80,0x80}} },
	{ "Transaction Type Capability: Goods", OR, {{0,0x40,0x40}} },
	{ "Transaction Type Capability: Services", OR, {{0,0x20,0x20}} },
	{ "Transaction Type Capability: Cashback", OR, {{0,0x10,0x10}} },
	{ "Transaction Type Capability: Inquiry", OR, {{0,0x08,0x08}} },
	{ "Transaction Type Capability: Transfer", OR, {{0,0x04,0x04}} },
	{ "Transaction Type Capability: Payment", OR, {{0,0x02,0x02}} },
	{ "Transaction Type Capability: Administrative", OR, {{0,0x01,0x01}} },
	{ "Transaction Type Capability: Cash deposit", OR, {{1,0x80,0x80}} },
	{ "Transaction Type Capability: RFU", OR, {{1,0x7F,ANY}} },
	{ "Transaction Type Capability: None", AND, {{0,0xFF,0x00}, {1,0xFF,0x00}} },
	{ "Terminal Data Input Capability: Numeric keys", OR, {{2,0x80,0x80}} },
	{ "Terminal Data Input Capability: Alphabetic and special characters keys", OR, {{2,0x40,0x40}} },
	{ "Terminal Data Input Capability: Command keys", OR, {{2,0x20,0x20}} },
	{ "Terminal Data Input Capability: Function keys", OR, {{2,0x10,0x10}} },
	{ "Terminal Data Input Capability: RFU", OR, {{2,0x0F,ANY}} },
	{ "Terminal Data Input Capability: None", OR, {{2,0xFF,0x00}} },
	{ "Terminal Data Output Capability: Print or electronic, attendant", OR, {{3,0x80,0x80}} },
	{ "Terminal Data Output Capability: Print or electronic, cardholder", OR, {{3,0x40,0x40}} },
	{ "Terminal Data Output Capability: Display, attendant", OR, {{3,0x20,0x20}} },
	{ "Terminal Data Output Capability: Display cardholder", OR, {{3,0x10,0x10}} },
	{ "Terminal Data Output Capability: No print, electronic or display output", OR, {{3,0xF0,0x00}} },
	{ "Terminal Data Output Capability: Code table 10", OR, {{3,0x02,0x02}} },
	{ "Terminal Data Output Capability: Code table 9", OR, {{3,0x01,0x01}} },
	{ "Terminal Data Output Capability: RFU", OR, {{3,0x0C,ANY}} },
	{ "Terminal Data Output Capability: Code table 8", OR, {{4,0x80,0x80}} },
	{ "Terminal Data Output Capability: Code table 7", OR, {{4,0x40,0x40}} },
	{ "Terminal Data Output Capability: Code table 6", OR, {{4,0x20,0x20}} },
	{ "Terminal Data Output Capability: Code table 5", OR, {{4,0x10,0x10}} },
	{ "Terminal Data Output Capability: Code table 4", OR, {{4,0x08,0x08}} },
	{ "Terminal Data Output Capability: Code table 3", OR, {{4,0x04,0x04}} },
	{ "Terminal Data Output Capability: Code table 2", OR, {{4,0x02,0x02}} },
	{ "Terminal Data Output Capability: Code table 1", OR, {{4,0x01,0x01}} },
}, },
{ "application interchange profile", "emv_aip_get_string_list", "0000", {0, 1}, {
	{ "Extended Data Authentication (XDA) is supported", OR, {{0,0x80,0x80}} },
	{ "Static Data Authentication (SDA) is supported", OR, {{0,0x40,0x40}} },
	{ "Dynamic Data Authentication (DDA) is supported", OR, {{0,0x20,0x20}} },
	{ "Cardholder verification is supported", OR, {{0,0x10,0x10}} },
	{ "Terminal risk management is to be performed", OR, {{0,0x08,0x08}} },
	{ "Issuer authentication is supported", OR, {{0,0x04,0x04}} },
	{ "On device cardholder verification is supported", OR, {{0,0x02,0x02}} },
	{ "Combined DDA/Application Cryptogram Generation (CDA) is supported", OR, {{0,0x01,0x01}} },
	{ "Contactless EMV mode is supported", OR, {{1,0x80,0x80}} },
	{ "Mobile phone", OR, {{1,0x40,0x40}} },
	{ "Contactless transaction", OR, {{1,0x20,0x20}} },
	{ "RFU", OR, {{1,0x1E,ANY}} },
	{ "Relay Resistance Protocol (RRP) is supported", OR, {{1,0x01,0x01}} },
}, },
{ "application usage control", "emv_app_usage_control_get_string_list", "0000", {0, 1}, {
	{ "Valid for domestic cash transactions", OR, {{0,0x80,0x80}} },
	{ "Valid for international cash transactions", OR, {{0,0x40,0x40}} },
	{ "Valid for domestic goods", OR, {{0,0x20,0x20}} },
	{ "Valid for international goods", OR, {{0,0x10,0x10}} },
	{ "Valid for domestic services", OR, {{0,0x08,0x08}} },
	{ "Valid for international services", OR, {{0,0x04,0x04}} },
	{ "Valid at ATMs", OR, {{0,0x02,0x02}} },
	{ "Valid at terminals other than ATMs", OR, {{0,0x01,0x01}} },
	{ "Domestic cashback allowed", OR, {{1,0x80,0x80}} },
	{ "International cashback allowed", OR, {{1,0x40,0x40}} },
	{ "RFU", OR, {{1,0x3F,ANY}} },
}, },
{ "terminal verification results", "emv_tvr_get_string_list", "0000000000", {0, 1, 2, 3, 4}, {
	{ "Offline data authentication was not performed", OR, {{0,0x80,0x80}} },
	{ "Static Data Authentication (SDA) failed", OR, {{0,0x40,0x40}} },
	{ "Integrated circuit card (ICC) data missing", OR, {{0,0x20,0x20}} },
	{ "Card appears on terminal exception file", OR, {{0,0x10,0x10}} },
	{ "Dynamic Data Authentication (DDA) failed", OR, {{0,0x08,0x08}} },
	{ "Combined DDA/Application Cryptogram Generation (CDA) failed", OR, {{0,0x04,0x04}} },
	{ "Static Data Authentication (SDA) selected", OR, {{0,0x02,0x02}} },
	{ "Extended Data Authentication (XDA) selected", OR, {{0,0x01,0x01}} },
	{ "ICC and terminal have different application versions", OR, {{1,0x80,0x80}} },
	{ "Expired application", OR, {{1,0x40,0x40}} },
	{ "Application not yet effective", OR, {{1,0x20,0x20}} },
	{ "Requested service not allowed for card product", OR, {{1,0x10,0x10}} },
	{ "New card", OR, {{1,0x08,0x08}} },
	{ "RFU", OR, {{1,0x04,0x04}} },
	{ "Biometric performed and successful", OR, {{1,0x02,0x02}} },
	{ "Biometric template format not supported", OR, {{1,0x01,0x01}} },
	{ "Cardholder verification was not successful", OR, {{2,0x80,0x80}} },
	{ "Unrecognised CVM", OR, {{2,0x40,0x40}} },
	{ "PIN Try Limit exceeded", OR, {{2,0x20,0x20}} },
	{ "PIN entry required and PIN pad not present or not working", OR, {{2,0x10,0x10}} },
	{ "PIN entry required, PIN pad present, but PIN was not entered", OR, {{2,0x08,0x08}} },
	{ "Online CVM captured", OR, {{2,0x04,0x04}} },
	{ "Biometric required but Biometric capture device not working", OR, {{2,0x02,0x02}} },
	{ "Biometric required, Biometric capture device present, but Biometric Subtype entry was bypassed", OR, {{2,0x01,0x01}} },
	{ "Transaction exceeds floor limit", OR, {{3,0x80,0x80}} },
	{ "Lower consecutive offline limit exceeded", OR, {{3,0x40,0x40}} },
	{ "Upper consecutive offline limit exceeded", OR, {{3,0x20,0x20}} },
	{ "Transaction selected randomly for online processing", OR, {{3,0x10,0x10}} },
	{ "Merchant forced transaction online", OR, {{3,0x08,0x08}} },
	{ "Biometric Try Limit exceeded", OR, {{3,0x04,0x04}} },
	{ "A selected Biometric Type not supported", OR, {{3,0x02,0x02}} },
	{ "XDA signature verification failed", OR, {{3,0x01,0x01}} },
	{ "Default TDOL used", OR, {{4,0x80,0x80}} },
	{ "Issuer authentication failed", OR, {{4,0x40,0x40}} },
	{ "Script processing failed before final GENERATE AC", OR, {{4,0x20,0x20}} },
	{ "Script processing failed after final GENERATE AC", OR, {{4,0x10,0x10}} },
	{ "CA ECC key missing", OR, {{4,0x04,0x04}} },
	{ "ECC key recovery failed", OR, {{4,0x02,0x02}} },
	{ "Reserved for use by the EMV Contactless Specifications", OR, {{4,0x09,ANY}} },
}, },
{ "transaction status information", "emv_tsi_get_string_list", "0000", {0, 1}, {
	{ "Offline data authentication was performed", OR, {{0,0x80,0x80}} },
	{ "Cardholder verification was performed", OR, {{0,0x40,0x40}} },
	{ "Card risk management was performed", OR, {{0,0x20,0x20}} },
	{ "Issuer authentication was performed", OR, {{0,0x10,0x10}} },
	{ "Terminal risk management was performed", OR, {{0,0x08,0x08}} },
	{ "Script processing was performed", OR, {{0,0x04,0x04}} },
	{ "RFU", OR, {{0,0x03,ANY}, {1,0xFF,ANY}} },
}, },
{ "cryptogram information data", "emv_cid_get_string_list", "00", {0}, {
	{ "Application Cryptogram (AC) type: Transaction Certificate (TC)", OR, {{0,0xC0,0x40}} },
	{ "Application Cryptogram (AC) type: Authorisation Request Cryptogram (ARQC)", OR, {{0,0xC0,0x80}} },
	{ "Application Cryptogram (AC) type: Application Authentication Cryptogram (AAC)", OR, {{0,0xC0,0x00}} },
	{ "Application Cryptogram (AC) type: RFU", OR, {{0,0xC0,0xC0}} },
	{ "Payment System-specific cryptogram: 0x30", OR, {{0,0x30,0x30}} },
	{ "Payment System-specific cryptogram: 0x10", OR, {{0,0x30,0x10}} },
	{ "Payment System-specific cryptogram: 0x20", OR, {{0,0x30,0x20}} },
	{ "No advice required", OR, {{0,0x09,0x01}, {0,0x0A,0x02}, {0,0x0C,0x04}} },
	{ "Advice required", OR, {{0,0x08,0x08}} },
	{ "Advice: PIN Try Limit exceeded", OR, {{0,0x07,0x02}} },
	{ "Advice: Service not allowed", OR, {{0,0x07,0x01}} },
	{ "Advice: RFU", OR, {{0,0x04,0x04}} },
	{ "Advice: Issuer authentication failed", OR, {{0,0x07,0x03}} },
}, },
{ "terminal risk management data", "emv_terminal_risk_management_data_get_string_list", "0000000000000000", {0, 1, 2, 3, 4, 5, 6, 7}, {
	{ "Restart supported", OR, {{0,0x80,0x80}} },
	{ "Enciphered PIN verified online (Contactless)", OR, {{0,0x40,0x40}} },
	{ "Signature (paper) (Contactless)", OR, {{0,0x20,0x20}} },
	{ "Enciphered PIN verification performed by ICC (Contactless)", OR, {{0,0x10,0x10}} },
	{ "No CVM required (Contactless)", OR, {{0,0x08,0x08}} },
	{ "CDCVM (Contactless)", OR, {{0,0x04,0x04}} },
	{ "Plaintext PIN verification performed by ICC (Contactless)", OR, {{0,0x02,0x02}} },
	{ "Present and Hold supported", OR, {{0,0x01,0x01}} },
	{ "CVM Limit exceeded", OR, {{1,0x80,0x80}} },
	{ "Enciphered PIN verified online (Contact)", OR, {{1,0x40,0x40}} },
	{ "Signature (paper) (Contact)", OR, {{1,0x20,0x20}} },
	{ "Enciphered PIN verification performed by ICC (Contact)", OR, {{1,0x10,0x10}} },
	{ "No CVM required (Contact)", OR, {{1,0x08,0x08}} },
	{ "CDCVM (Contact)", OR, {{1,0x04,0x04}} },
	{ "Plaintext PIN verification performed by ICC (Contact)", OR, {{1,0x02,0x02}} },
	{ "Mag-stripe mode contactless transactions not supported", OR, {{2,0x80,0x80}} },
	{ "EMV mode contactless transactions not supported", OR, {{2,0x40,0x40}} },
	{ "CDCVM without CDA supported", OR, {{2,0x20,0x20}} },
	{ "CDCVM bypass requested", OR, {{3,0x80,0x80}} },
	{ "SCA exempt", OR, {{3,0x40,0x40}} },
	{ "RFU", OR, {{1,0x01,0x01}, {2,0x1F,ANY}, {3,0x3F,ANY}, {4,0xFF,ANY}, {5,0xFF,ANY}, {6,0xFF,ANY}, {7,0xFF,ANY}} },
}, },
{ "card transaction qualifiers", "emv_ctq_get_string_list", "0000", {0, 1}, {
	{ "Online PIN Required", OR, {{0,0x80,0x80}} },
	{ "Signature Required", OR, {{0,0x40,0x40}} },
	{ "Go Online if Offline Data Authentication Fails and Reader is online capable", OR, {{0,0x20,0x20}} },
	{ "Switch Interface if Offline Data Authentication fails and Reader supports contact chip", OR, {{0,0x10,0x10}} },
	{ "Go Online if Application Expired", OR, {{0,0x08,0x08}} },
	{ "Switch Interface for Cash Transactions", OR, {{0,0x04,0x04}} },
	{ "Switch Interface for Cashback Transactions", OR, {{0,0x02,0x02}} },
	{ "Not valid for contactless ATM transactions", OR, {{0,0x01,0x01}} },
	{ "Consumer Device CVM Performed", OR, {{1,0x80,0x80}} },
	{ "Card supports Issuer Update Processing at the POS", OR, {{1,0x40,0x40}} },
	{ "RFU", OR, {{1,0x3F,ANY}} },
}, },
{ "form factor indicator", "emv_visa_form_factor_indicator_get_string_list", "20000000", {0, 1, 2, 3}, {
	{ "Consumer Payment Device Form Factor: Card", OR, {{0,0xFF,0x20}} },
	{ "Consumer Payment Device Form Factor: Unknown", OR, {{0,0xE8,0x28}, {0,0xF0,0x30}, {0,0xE5,0x25}, {0,0xE6,0x26}} },
	{ "Consumer Payment Device Form Factor: Wrist-worn device", OR, {{0,0xFF,0x24}} },
	{ "Consumer Payment Device Form Factor: Consumer mobile phone", OR, {{0,0xFF,0x23}} },
	{ "Consumer Payment Device Form Factor: Non-card Form Factor", OR, {{0,0xFF,0x22}} },
	{ "Consumer Payment Device Form Factor: Mini-card", OR, {{0,0xFF,0x21}} },
	{ "Consumer Payment Device Features: Passcode Capable", OR, {{1,0x80,0x80}} },
	{ "Consumer Payment Device Features: Signature Panel", OR, {{1,0x40,0x40}} },
	{ "Consumer Payment Device Features: Hologram", OR, {{1,0x20,0x20}} },
	{ "Consumer Payment Device Features: CVV2", OR, {{1,0x10,0x10}} },
	{ "Consumer Payment Device Features: Two-way Messaging", OR, {{1,0x08,0x08}} },
	{ "Consumer Payment Device Features: Cloud Based Payment Credentials", OR, {{1,0x04,0x04}} },
	{ "Consumer Payment Device Features: Biometric Cardholder Verification Capable", OR, {{1,0x02,0x02}} },
	{ "Consumer Payment Device Features: RFU", OR, {{1,0x01,0x01}} },
	{ "Form Factor Indicator (FFI) byte 3: RFU", OR, {{2,0xFF,ANY}} },
	{ "Payment Transaction Technology: Proximity Contactless interface using ISO 14443 (including NFC)", OR, {{3,0x0F,0x00}} },
	{ "Payment Transaction Technology: Unknown", OR, {{3,0x0E,ANY}} },
	{ "Payment Transaction Technology: Not used in VCPS", OR, {{3,0x0F,0x01}} },
	{ "Payment Transaction Technology: RFU", OR, {{3,0xF0,ANY}} },
}, },
{ "card service data", "iso7816_card_service_data_get_string_list", "00", {0}, {
	{ "Application selection: by full DF name", OR, {{0,0x80,0x80}} },
	{ "Application selection: by partial DF name", OR, {{0,0x40,0x40}} },
	{ "BER-TLV data objects available in EF.DIR", OR, {{0,0x20,0x20}} },
	{ "BER-TLV data objects available in EF.ATR", OR, {{0,0x10,0x10}} },
	{ "EF.DIR and EF.ATR access services: by READ RECORD(S) command (record structure)", OR, {{0,0x0E,0x00}} },
	{ "EF.DIR and EF.ATR access services: Unknown value", OR, {{0,0x02,0x02}, {0,0x0C,0x0C}} },
	{ "EF.DIR and EF.ATR access services: by GET DATA command (TLV structure)", OR, {{0,0x0E,0x04}} },
	{ "EF.DIR and EF.ATR access services: by READ BINARY command (transparent structure)", OR, {{0,0x0E,0x08}} },
	{ "Card without MF", OR, {{0,0x01,0x01}} },
	{ "Card with MF", OR, {{0,0x01,0x00}} },
}, },
{ "card capabilities, 1 byte", "iso7816_card_capabilities_get_string_list", "00", {0}, {
	{ "DF selection: by full DF NAME", OR, {{0,0x80,0x80}} },
	{ "DF selection: by partial DF NAME", OR, {{0,0x40,0x40}} },
	{ "DF selection: by path", OR, {{0,0x20,0x20}} },
	{ "DF selection: by file identifier", OR, {{0,0x10,0x10}} },
	{ "DF selection: implicit", OR, {{0,0x08,0x08}} },
	{ "Short EF identifier supported", OR, {{0,0x04,0x04}} },
	{ "Record number supported", OR, {{0,0x02,0x02}} },
	{ "Record identifier supported", OR, {{0,0x01,0x01}} },
}, },
{ "card capabilities, 2 bytes", "iso7816_card_capabilities_get_string_list", "0000", {0, 1}, {
	{ "DF selection: by full DF NAME", OR, {{0,0x80,0x80}} },
	{ "DF selection: by partial DF NAME", OR, {{0,0x40,0x40}} },
	{ "DF selection: by path", OR, {{0,0x20,0x20}} },
	{ "DF selection: by file identifier", OR, {{0,0x10,0x10}} },
	{ "DF selection: implicit", OR, {{0,0x08,0x08}} },
	{ "Short EF identifier supported", OR, {{0,0x04,0x04}} },
	{ "Record number supported", OR, {{0,0x02,0x02}} },
	{ "Record identifier supported", OR, {{0,0x01,0x01}} },
	{ "EFs of TLV structure supported", OR, {{1,0x80,0x80}} },
	{ "Behaviour of write functions: write AND", OR, {{1,0x60,0x60}} },
	{ "Behaviour of write functions: proprietary", OR, {{1,0x60,0x20}} },
	{ "Behaviour of write functions: one-time write", OR, {{1,0x60,0x00}} },
	{ "Behaviour of write functions: write OR", OR, {{1,0x60,0x40}} },
	{ "FF as first byte of BER-TLV tag is valid", OR, {{1,0x10,0x10}} },
	{ "FF as first byte of BER-TLV tag is invalid / padding", OR, {{1,0x10,0x00}} },
	{ "Data unit size: 16384 bytes", OR, {{1,0x0F,0x0F}} },
	{ "Data unit size: 128 bytes", OR, {{1,0x0F,0x08}} },
	{ "Data unit size: 16 bytes", OR, {{1,0x0F,0x05}} },
	{ "Data unit size: 512 bytes", OR, {{1,0x0F,0x0A}} },
	{ "Data unit size: 1 bytes", OR, {{1,0x0F,0x01}} },
	{ "Data unit size: 4 bytes", OR, {{1,0x0F,0x03}} },
	{ "Data unit size: 2048 bytes", OR, {{1,0x0F,0x0C}} },
	{ "Data unit size: 1024 bytes", OR, {{1,0x0F,0x0B}} },
	{ "Data unit size: 256 bytes", OR, {{1,0x0F,0x09}} },
	{ "Data unit size: 64 bytes", OR, {{1,0x0F,0x07}} },
	{ "Data unit size: 8 bytes", OR, {{1,0x0F,0x04}} },
	{ "Data unit size: 8192 bytes", OR, {{1,0x0F,0x0E}} },
	{ "Data unit size: 2 bytes", OR, {{1,0x0F,0x02}} },
	{ "Data unit size: 32 bytes", OR, {{1,0x0F,0x06}} },
	{ "Data unit size: 4096 bytes", OR, {{1,0x0F,0x0D}} },
}, },
{ "card capabilities, 3 bytes", "iso7816_card_capabilities_get_string_list", "000000", {0, 1, 2}, {
	{ "DF selection: by full DF NAME", OR, {{0,0x80,0x80}} },
	{ "DF selection: by partial DF NAME", OR, {{0,0x40,0x40}} },
	{ "DF selection: by path", OR, {{0,0x20,0x20}} },
	{ "DF selection: by file identifier", OR, {{0,0x10,0x10}} },
	{ "DF selection: implicit", OR, {{0,0x08,0x08}} },
	{ "Short EF identifier supported", OR, {{0,0x04,0x04}} },
	{ "Record number supported", OR, {{0,0x02,0x02}} },
	{ "Record identifier supported", OR, {{0,0x01,0x01}} },
	{ "EFs of TLV structure supported", OR, {{1,0x80,0x80}} },
	{ "Behaviour of write functions: proprietary", OR, {{1,0x60,0x20}} },
	{ "Behaviour of write functions: one-time write", OR, {{1,0x60,0x00}} },
	{ "Behaviour of write functions: write OR", OR, {{1,0x60,0x40}} },
	{ "Behaviour of write functions: write AND", OR, {{1,0x60,0x60}} },
	{ "FF as first byte of BER-TLV tag is invalid / padding", OR, {{1,0x10,0x00}} },
	{ "FF as first byte of BER-TLV tag is valid", OR, {{1,0x10,0x10}} },
	{ "Data unit size: 256 bytes", OR, {{1,0x0F,0x09}} },
	{ "Data unit size: 512 bytes", OR, {{1,0x0F,0x0A}} },
	{ "Data unit size: 4096 bytes", OR, {{1,0x0F,0x0D}} },
	{ "Data unit size: 16 bytes", OR, {{1,0x0F,0x05}} },
	{ "Data unit size: 16384 bytes", OR, {{1,0x0F,0x0F}} },
	{ "Data unit size: 4 bytes", OR, {{1,0x0F,0x03}} },
	{ "Data unit size: 64 bytes", OR, {{1,0x0F,0x07}} },
	{ "Data unit size: 32 bytes", OR, {{1,0x0F,0x06}} },
	{ "Data unit size: 8 bytes", OR, {{1,0x0F,0x04}} },
	{ "Data unit size: 8192 bytes", OR, {{1,0x0F,0x0E}} },
	{ "Data unit size: 2048 bytes", OR, {{1,0x0F,0x0C}} },
	{ "Data unit size: 2 bytes", OR, {{1,0x0F,0x02}} },
	{ "Data unit size: 128 bytes", OR, {{1,0x0F,0x08}} },
	{ "Data unit size: 1024 bytes", OR, {{1,0x0F,0x0B}} },
	{ "Data unit size: 1 bytes", OR, {{1,0x0F,0x01}} },
	{ "Command chaining", OR, {{2,0x88,0x80}, {2,0x90,0x80}} },
	{ "Extended Lc and Le fields", OR, {{2,0x48,0x40}, {2,0x50,0x40}} },
	{ "Logical channel number assignment: by the card", OR, {{2,0x18,0x10}} },
	{ "No logical channel", OR, {{2,0x18,0x00}} },
	{ "Logical channel number assignment: by the interface device", OR, {{2,0x18,0x08}} },
	{ "Maximum number of logical channels: 6", OR, {{2,0x0F,0x05}, {2,0x17,0x05}} },
	{ "Maximum number of logical channels: 1", OR, {{2,0x0F,0x00}, {2,0x17,0x00}} },
	{ "Maximum number of logical channels: 3", OR, {{2,0x0F,0x02}, {2,0x17,0x02}} },
	{ "Maximum number of logical channels: 4", OR, {{2,0x0F,0x03}, {2,0x17,0x03}} },
	{ "Maximum number of logical channels: 8 or more", OR, {{2,0x0F,0x07}, {2,0x17,0x07}} },
	{ "Maximum number of logical channels: 7", OR, {{2,0x0F,0x06}, {2,0x17,0x06}} },
	{ "Maximum number of logical channels: 5", OR, {{2,0x0F,0x04}, {2,0x17,0x04}} },
	{ "Maximum number of logical channels: 2", OR, {{2,0x0F,0x01}, {2,0x17,0x01}} },
}, },
{ "CCD issuer application data", "emv_iad_get_string_list", "0fa500000000000000000000000000000f000000000000000000000000000000", {3, 4, 5, 6, 7}, {
	{ "Card Verification Results (CVR): Second GENERATE AC returned AAC", OR, {{3,0xC0,0x00}} },
	{ "Card Verification Results (CVR): Second GENERATE AC returned TC", OR, {{3,0xC0,0x40}} },
	{ "Card Verification Results (CVR): Second GENERATE AC Not Requested", OR, {{3,0xC0,0x80}} },
	{ "Card Verification Results (CVR): Second GENERATE AC RFU", OR, {{3,0xC0,0xC0}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned AAC", OR, {{3,0x30,0x00}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned TC", OR, {{3,0x30,0x10}} },
	{ "Card Verification Results (CVR): First GENERATE AC RFU", OR, {{3,0x30,0x30}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned ARQC", OR, {{3,0x30,0x20}} },
	{ "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Performed", OR, {{3,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline Dynamic Data Authentication (DDA) Performed", OR, {{3,0x04,0x04}} },
	{ "Card Verification Results (CVR): Issuer Authentication Not Performed", OR, {{3,0x02,0x02}} },
	{ "Card Verification Results (CVR): Issuer Authentication Failed", OR, {{3,0x01,0x01}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 0", OR, {{4,0xF0,0x00}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 14", OR, {{4,0xF0,0xE0}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 5", OR, {{4,0xF0,0x50}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 10", OR, {{4,0xF0,0xA0}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 11", OR, {{4,0xF0,0xB0}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 15", OR, {{4,0xF0,0xF0}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 13", OR, {{4,0xF0,0xD0}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 3", OR, {{4,0xF0,0x30}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 8", OR, {{4,0xF0,0x80}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 1", OR, {{4,0xF0,0x10}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 7", OR, {{4,0xF0,0x70}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 2", OR, {{4,0xF0,0x20}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 6", OR, {{4,0xF0,0x60}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 9", OR, {{4,0xF0,0x90}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 4", OR, {{4,0xF0,0x40}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 12", OR, {{4,0xF0,0xC0}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Performed", OR, {{4,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Performed and PIN Not Successfully Verified", OR, {{4,0x04,0x04}} },
	{ "Card Verification Results (CVR): PIN Try Limit Exceeded", OR, {{4,0x02,0x02}} },
	{ "Card Verification Results (CVR): Last Online Transaction Not Completed", OR, {{4,0x01,0x01}} },
	{ "Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded", OR, {{5,0x80,0x80}} },
	{ "Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded", OR, {{5,0x40,0x40}} },
	{ "Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded", OR, {{5,0x20,0x20}} },
	{ "Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded", OR, {{5,0x10,0x10}} },
	{ "Card Verification Results (CVR): Issuer-discretionary bit 1", OR, {{5,0x08,0x08}} },
	{ "Card Verification Results (CVR): Issuer-discretionary bit 2", OR, {{5,0x04,0x04}} },
	{ "Card Verification Results (CVR): Issuer-discretionary bit 3", OR, {{5,0x02,0x02}} },
	{ "Card Verification Results (CVR): Issuer-discretionary bit 4", OR, {{5,0x01,0x01}} },
	{ "Card Verification Results (CVR): 2 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x20}} },
	{ "Card Verification Results (CVR): 5 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x50}} },
	{ "Card Verification Results (CVR): 11 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0xB0}} },
	{ "Card Verification Results (CVR): 10 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0xA0}} },
	{ "Card Verification Results (CVR): 8 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x80}} },
	{ "Card Verification Results (CVR): 1 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x10}} },
	{ "Card Verification Results (CVR): 7 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x70}} },
	{ "Card Verification Results (CVR): 12 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0xC0}} },
	{ "Card Verification Results (CVR): 13 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0xD0}} },
	{ "Card Verification Results (CVR): 15 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0xF0}} },
	{ "Card Verification Results (CVR): 4 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x40}} },
	{ "Card Verification Results (CVR): 6 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x60}} },
	{ "Card Verification Results (CVR): 3 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x30}} },
	{ "Card Verification Results (CVR): 9 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0x90}} },
	{ "Card Verification Results (CVR): 14 Successfully Processed Issuer Script Commands Containing Secure Messaging", OR, {{6,0xF0,0xE0}} },
	{ "Card Verification Results (CVR): Issuer Script Processing Failed", OR, {{6,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline Data Authentication Failed on Previous Transaction", OR, {{6,0x04,0x04}} },
	{ "Card Verification Results (CVR): Go Online on Next Transaction Was Set", OR, {{6,0x02,0x02}} },
	{ "Card Verification Results (CVR): Unable to go Online", OR, {{6,0x01,0x01}} },
	{ "Card Verification Results (CVR): RFU", OR, {{7,0xFF,ANY}} },
}, },
{ "M/Chip 4 issuer application data", "emv_iad_get_string_list", "011000000000000000000000000000000000", {2, 3, 4, 5, 6, 7}, {
	{ "Card Verification Results (CVR): Second GENERATE AC returned AAC", OR, {{2,0xC0,0x00}} },
	{ "Card Verification Results (CVR): Second GENERATE AC RFU", OR, {{2,0xC0,0xC0}} },
	{ "Card Verification Results (CVR): Second GENERATE AC returned TC", OR, {{2,0xC0,0x40}} },
	{ "Card Verification Results (CVR): Second GENERATE AC Not Requested", OR, {{2,0xC0,0x80}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned AAC", OR, {{2,0x30,0x00}} },
	{ "Card Verification Results (CVR): First GENERATE AC RFU", OR, {{2,0x30,0x30}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned TC", OR, {{2,0x30,0x10}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned ARQC", OR, {{2,0x30,0x20}} },
	{ "Card Verification Results (CVR): Date Check Failed", OR, {{2,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Performed", OR, {{2,0x04,0x04}} },
	{ "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed", OR, {{2,0x02,0x02}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Successful", OR, {{2,0x01,0x01}} },
	{ "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned", OR, {{3,0x80,0x80}} },
	{ "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC", OR, {{3,0x40,0x40}} },
	{ "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC", OR, {{3,0x20,0x20}} },
	{ "Card Verification Results (CVR): Issuer Authentication Performed", OR, {{3,0x10,0x10}} },
	{ "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)", OR, {{3,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline Change PIN Result Successful", OR, {{3,0x04,0x04}} },
	{ "Card Verification Results (CVR): Issuer Discretionary", OR, {{3,0x03,ANY}} },
	{ "Card Verification Results (CVR): Script Counter is 15", OR, {{4,0xF0,0xF0}} },
	{ "Card Verification Results (CVR): Script Counter is 5", OR, {{4,0xF0,0x50}} },
	{ "Card Verification Results (CVR): Script Counter is 10", OR, {{4,0xF0,0xA0}} },
	{ "Card Verification Results (CVR): Script Counter is 8", OR, {{4,0xF0,0x80}} },
	{ "Card Verification Results (CVR): Script Counter is 6", OR, {{4,0xF0,0x60}} },
	{ "Card Verification Results (CVR): Script Counter is 14", OR, {{4,0xF0,0xE0}} },
	{ "Card Verification Results (CVR): Script Counter is 1", OR, {{4,0xF0,0x10}} },
	{ "Card Verification Results (CVR): Script Counter is 3", OR, {{4,0xF0,0x30}} },
	{ "Card Verification Results (CVR): Script Counter is 2", OR, {{4,0xF0,0x20}} },
	{ "Card Verification Results (CVR): Script Counter is 9", OR, {{4,0xF0,0x90}} },
	{ "Card Verification Results (CVR): Script Counter is 7", OR, {{4,0xF0,0x70}} },
	{ "Card Verification Results (CVR): Script Counter is 11", OR, {{4,0xF0,0xB0}} },
	{ "Card Verification Results (CVR): Script Counter is 12", OR, {{4,0xF0,0xC0}} },
	{ "Card Verification Results (CVR): Script Counter is 4", OR, {{4,0xF0,0x40}} },
	{ "Card Verification Results (CVR): Script Counter is 13", OR, {{4,0xF0,0xD0}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 15", OR, {{4,0x0F,0x0F}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 5", OR, {{4,0x0F,0x05}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 10", OR, {{4,0x0F,0x0A}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 12", OR, {{4,0x0F,0x0C}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 8", OR, {{4,0x0F,0x08}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 3", OR, {{4,0x0F,0x03}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 11", OR, {{4,0x0F,0x0B}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 4", OR, {{4,0x0F,0x04}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 6", OR, {{4,0x0F,0x06}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 7", OR, {{4,0x0F,0x07}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 14", OR, {{4,0x0F,0x0E}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 13", OR, {{4,0x0F,0x0D}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 1", OR, {{4,0x0F,0x01}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 2", OR, {{4,0x0F,0x02}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 9", OR, {{4,0x0F,0x09}} },
	{ "Card Verification Results (CVR): Last Online Transaction Not Completed", OR, {{5,0x80,0x80}} },
	{ "Card Verification Results (CVR): Unable To Go Online", OR, {{5,0x40,0x40}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Not Performed", OR, {{5,0x20,0x20}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Failed", OR, {{5,0x10,0x10}} },
	{ "Card Verification Results (CVR): PTL Exceeded", OR, {{5,0x08,0x08}} },
	{ "Card Verification Results (CVR): International Transaction", OR, {{5,0x04,0x04}} },
	{ "Card Verification Results (CVR): Domestic Transaction", OR, {{5,0x02,0x02}} },
	{ "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK", OR, {{5,0x01,0x01}} },
	{ "Card Verification Results (CVR): Lower Consecutive Offline Limit Exceeded", OR, {{6,0x80,0x80}} },
	{ "Card Verification Results (CVR): Upper Consecutive Offline Limit Exceeded", OR, {{6,0x40,0x40}} },
	{ "Card Verification Results (CVR): Lower Cumulative Offline Limit Exceeded", OR, {{6,0x20,0x20}} },
	{ "Card Verification Results (CVR): Upper Cumulative Offline Limit Exceeded", OR, {{6,0x10,0x10}} },
	{ "Card Verification Results (CVR): Go Online On Next Transaction Was Set", OR, {{6,0x08,0x08}} },
	{ "Card Verification Results (CVR): Issuer Authentication Failed", OR, {{6,0x04,0x04}} },
	{ "Card Verification Results (CVR): Script Received", OR, {{6,0x02,0x02}} },
	{ "Card Verification Results (CVR): Script Failed", OR, {{6,0x01,0x01}} },
	{ "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded", OR, {{7,0x80,0x80}} },
	{ "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded", OR, {{7,0x40,0x40}} },
	{ "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded", OR, {{7,0x20,0x20}} },
	{ "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded", OR, {{7,0x10,0x10}} },
	{ "Card Verification Results (CVR): MTA Limit Exceeded", OR, {{7,0x08,0x08}} },
	{ "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded", OR, {{7,0x04,0x04}} },
	{ "Card Verification Results (CVR): Match Found In Additional Check Table", OR, {{7,0x02,0x02}} },
	{ "Card Verification Results (CVR): No Match Found In Additional Check Table", OR, {{7,0x01,0x01}} },
}, },
{ "M/Chip Advance issuer application data", "emv_iad_get_string_list", "0110000000000000000000000000000000000000", {2, 3, 4, 5, 6, 7}, {
	{ "Card Verification Results (CVR): Second GENERATE AC returned AAC", OR, {{2,0xC0,0x00}} },
	{ "Card Verification Results (CVR): Second GENERATE AC RFU", OR, {{2,0xC0,0xC0}} },
	{ "Card Verification Results (CVR): Second GENERATE AC Not Requested", OR, {{2,0xC0,0x80}} },
	{ "Card Verification Results (CVR): Second GENERATE AC returned TC", OR, {{2,0xC0,0x40}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned AAC", OR, {{2,0x30,0x00}} },
	{ "Card Verification Results (CVR): First GENERATE AC RFU", OR, {{2,0x30,0x30}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned ARQC", OR, {{2,0x30,0x20}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned TC", OR, {{2,0x30,0x10}} },
	{ "Card Verification Results (CVR): Date Check Failed", OR, {{2,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Performed", OR, {{2,0x04,0x04}} },
	{ "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed", OR, {{2,0x02,0x02}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Successful", OR, {{2,0x01,0x01}} },
	{ "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned", OR, {{3,0x80,0x80}} },
	{ "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC", OR, {{3,0x40,0x40}} },
	{ "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC", OR, {{3,0x20,0x20}} },
	{ "Card Verification Results (CVR): Issuer Authentication Performed", OR, {{3,0x10,0x10}} },
	{ "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)", OR, {{3,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline Change PIN Result Successful", OR, {{3,0x04,0x04}} },
	{ "Card Verification Results (CVR): Issuer Discretionary", OR, {{3,0x03,ANY}} },
	{ "Card Verification Results (CVR): Script Counter is 15", OR, {{4,0xF0,0xF0}} },
	{ "Card Verification Results (CVR): Script Counter is 9", OR, {{4,0xF0,0x90}} },
	{ "Card Verification Results (CVR): Script Counter is 8", OR, {{4,0xF0,0x80}} },
	{ "Card Verification Results (CVR): Script Counter is 1", OR, {{4,0xF0,0x10}} },
	{ "Card Verification Results (CVR): Script Counter is 6", OR, {{4,0xF0,0x60}} },
	{ "Card Verification Results (CVR): Script Counter is 7", OR, {{4,0xF0,0x70}} },
	{ "Card Verification Results (CVR): Script Counter is 5", OR, {{4,0xF0,0x50}} },
	{ "Card Verification Results (CVR): Script Counter is 10", OR, {{4,0xF0,0xA0}} },
	{ "Card Verification Results (CVR): Script Counter is 4", OR, {{4,0xF0,0x40}} },
	{ "Card Verification Results (CVR): Script Counter is 2", OR, {{4,0xF0,0x20}} },
	{ "Card Verification Results (CVR): Script Counter is 14", OR, {{4,0xF0,0xE0}} },
	{ "Card Verification Results (CVR): Script Counter is 11", OR, {{4,0xF0,0xB0}} },
	{ "Card Verification Results (CVR): Script Counter is 12", OR, {{4,0xF0,0xC0}} },
	{ "Card Verification Results (CVR): Script Counter is 3", OR, {{4,0xF0,0x30}} },
	{ "Card Verification Results (CVR): Script Counter is 13", OR, {{4,0xF0,0xD0}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 15", OR, {{4,0x0F,0x0F}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 13", OR, {{4,0x0F,0x0D}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 12", OR, {{4,0x0F,0x0C}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 3", OR, {{4,0x0F,0x03}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 8", OR, {{4,0x0F,0x08}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 9", OR, {{4,0x0F,0x09}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 5", OR, {{4,0x0F,0x05}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 4", OR, {{4,0x0F,0x04}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 10", OR, {{4,0x0F,0x0A}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 6", OR, {{4,0x0F,0x06}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 14", OR, {{4,0x0F,0x0E}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 11", OR, {{4,0x0F,0x0B}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 7", OR, {{4,0x0F,0x07}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 1", OR, {{4,0x0F,0x01}} },
	{ "Card Verification Results (CVR): PIN Try Counter is 2", OR, {{4,0x0F,0x02}} },
	{ "Card Verification Results (CVR): Last Online Transaction Not Completed", OR, {{5,0x80,0x80}} },
	{ "Card Verification Results (CVR): Unable To Go Online", OR, {{5,0x40,0x40}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Not Performed", OR, {{5,0x20,0x20}} },
	{ "Card Verification Results (CVR): Offline PIN Verification Failed", OR, {{5,0x10,0x10}} },
	{ "Card Verification Results (CVR): PTL Exceeded", OR, {{5,0x08,0x08}} },
	{ "Card Verification Results (CVR): International Transaction", OR, {{5,0x04,0x04}} },
	{ "Card Verification Results (CVR): Domestic Transaction", OR, {{5,0x02,0x02}} },
	{ "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK", OR, {{5,0x01,0x01}} },
	{ "Card Verification Results (CVR): Lower Consecutive Counter 1 Limit Exceeded", OR, {{6,0x80,0x80}} },
	{ "Card Verification Results (CVR): Upper Consecutive Counter 1 Limit Exceeded", OR, {{6,0x40,0x40}} },
	{ "Card Verification Results (CVR): Lower Cumulative Accumulator Limit Exceeded", OR, {{6,0x20,0x20}} },
	{ "Card Verification Results (CVR): Upper Cumulative Accumulator Limit Exceeded", OR, {{6,0x10,0x10}} },
	{ "Card Verification Results (CVR): Go Online On Next Transaction Was Set", OR, {{6,0x08,0x08}} },
	{ "Card Verification Results (CVR): Issuer Authentication Failed", OR, {{6,0x04,0x04}} },
	{ "Card Verification Results (CVR): Script Received", OR, {{6,0x02,0x02}} },
	{ "Card Verification Results (CVR): Script Failed", OR, {{6,0x01,0x01}} },
	{ "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded", OR, {{7,0x80,0x80}} },
	{ "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded", OR, {{7,0x40,0x40}} },
	{ "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded", OR, {{7,0x20,0x20}} },
	{ "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded", OR, {{7,0x10,0x10}} },
	{ "Card Verification Results (CVR): MTA Limit Exceeded", OR, {{7,0x08,0x08}} },
	{ "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded", OR, {{7,0x04,0x04}} },
	{ "Card Verification Results (CVR): Match Found In Additional Check Table", OR, {{7,0x02,0x02}} },
	{ "Card Verification Results (CVR): No Match Found In Additional Check Table", OR, {{7,0x01,0x01}} },
}, },
{ "VSDC 0/1/3 issuer application data", "emv_iad_get_string_list", "06010a03000000", {4, 5, 6}, {
	{ "Card Verification Results (CVR): Second GENERATE AC Not Requested", OR, {{4,0xC0,0x80}} },
	{ "Card Verification Results (CVR): Second GENERATE AC returned AAC", OR, {{4,0xC0,0x00}} },
	{ "Card Verification Results (CVR): Second GENERATE AC returned TC", OR, {{4,0xC0,0x40}} },
	{ "Card Verification Results (CVR): Second GENERATE AC RFU", OR, {{4,0xC0,0xC0}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned ARQC", OR, {{4,0x30,0x20}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned AAC", OR, {{4,0x30,0x00}} },
	{ "Card Verification Results (CVR): First GENERATE AC returned TC", OR, {{4,0x30,0x10}} },
	{ "Card Verification Results (CVR): First GENERATE AC RFU", OR, {{4,0x30,0x30}} },
	{ "Card Verification Results (CVR): Issuer Authentication performed and failed", OR, {{4,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline PIN verification performed", OR, {{4,0x04,0x04}} },
	{ "Card Verification Results (CVR): Offline PIN verification failed", OR, {{4,0x02,0x02}} },
	{ "Card Verification Results (CVR): Unable to go online", OR, {{4,0x01,0x01}} },
	{ "Card Verification Results (CVR): Last online transaction not completed", OR, {{5,0x80,0x80}} },
	{ "Card Verification Results (CVR): PIN Try Limit exceeded", OR, {{5,0x40,0x40}} },
	{ "Card Verification Results (CVR): Exceeded velocity checking counters", OR, {{5,0x20,0x20}} },
	{ "Card Verification Results (CVR): New card", OR, {{5,0x10,0x10}} },
	{ "Card Verification Results (CVR): Issuer Authentication failure on last online transaction", OR, {{5,0x08,0x08}} },
	{ "Card Verification Results (CVR): Issuer Authentication not performed after online authorization", OR, {{5,0x04,0x04}} },
	{ "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded", OR, {{5,0x02,0x02}} },
	{ "Card Verification Results (CVR): Offline static data authentication failed on last transaction", OR, {{5,0x01,0x01}} },
	{ "Card Verification Results (CVR): Script Counter is 5", OR, {{6,0xF0,0x50}} },
	{ "Card Verification Results (CVR): Script Counter is 15", OR, {{6,0xF0,0xF0}} },
	{ "Card Verification Results (CVR): Script Counter is 11", OR, {{6,0xF0,0xB0}} },
	{ "Card Verification Results (CVR): Script Counter is 10", OR, {{6,0xF0,0xA0}} },
	{ "Card Verification Results (CVR): Script Counter is 1", OR, {{6,0xF0,0x10}} },
	{ "Card Verification Results (CVR): Script Counter is 6", OR, {{6,0xF0,0x60}} },
	{ "Card Verification Results (CVR): Script Counter is 14", OR, {{6,0xF0,0xE0}} },
	{ "Card Verification Results (CVR): Script Counter is 12", OR, {{6,0xF0,0xC0}} },
	{ "Card Verification Results (CVR): Script Counter is 9", OR, {{6,0xF0,0x90}} },
	{ "Card Verification Results (CVR): Script Counter is 2", OR, {{6,0xF0,0x20}} },
	{ "Card Verification Results (CVR): Script Counter is 3", OR, {{6,0xF0,0x30}} },
	{ "Card Verification Results (CVR): Script Counter is 4", OR, {{6,0xF0,0x40}} },
	{ "Card Verification Results (CVR): Script Counter is 13", OR, {{6,0xF0,0xD0}} },
	{ "Card Verification Results (CVR): Script Counter is 8", OR, {{6,0xF0,0x80}} },
	{ "Card Verification Results (CVR): Script Counter is 7", OR, {{6,0xF0,0x70}} },
	{ "Card Verification Results (CVR): Issuer Script processing failed", OR, {{6,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction", OR, {{6,0x04,0x04}} },
	{ "Card Verification Results (CVR): Offline dynamic data authentication performed", OR, {{6,0x02,0x02}} },
	{ "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card", OR, {{6,0x01,0x01}} },
}, },
{ "VSDC 2/4 issuer application data", "emv_iad_get_string_list", "1f22010000000000000000000000000000000000000000000000000000000000", {3, 4, 5, 6, 7}, {
	{ "Card Verification Results (CVR): Mobile Application", OR, {{3,0xF0,0x50}} },
	{ "No CDCVM", OR, {{3,0xFF,0x00}} },
	{ "Card Verification Results (CVR): Co-residing SE app", OR, {{3,0xF0,0x30}} },
	{ "Card Verification Results (CVR): TEE app", OR, {{3,0xF0,0x40}} },
	{ "Card Verification Results (CVR): Terminal", OR, {{3,0xF0,0x60}} },
	{ "Card Verification Results (CVR): MG", OR, {{3,0xF0,0x20}} },
	{ "Card Verification Results (CVR): Verified by the mobile device OS", OR, {{3,0xF0,0x80}} },
	{ "Card Verification Results (CVR): Visa Mobile Payment Application (VMPA)", OR, {{3,0xF0,0x10}} },
	{ "Card Verification Results (CVR): Verified in the cloud", OR, {{3,0xF0,0x70}} },
	{ "Card Verification Results (CVR): Iris biometric", OR, {{3,0x0F,0x05}} },
	{ "Card Verification Results (CVR): Finger biometric", OR, {{3,0x0F,0x02}} },
	{ "Card Verification Results (CVR): Online PIN", OR, {{3,0x0F,0x0E}} },
	{ "Card Verification Results (CVR): Passcode", OR, {{3,0x0F,0x01}} },
	{ "Card Verification Results (CVR): Signature", OR, {{3,0x0F,0x0D}} },
	{ "Card Verification Results (CVR): Voice biometric", OR, {{3,0x0F,0x06}} },
	{ "Card Verification Results (CVR): Palm biometric", OR, {{3,0x0F,0x07}} },
	{ "Card Verification Results (CVR): Mobile device pattern", OR, {{3,0x0F,0x03}} },
	{ "Card Verification Results (CVR): Facial biometric", OR, {{3,0x0F,0x04}} },
	{ "Card Verification Results (CVR): Second GENERATE AC Not Requested", OR, {{4,0xC0,0x80}} },
	{ "Card Verification Results (CVR): Second GENERATE AC returned AAC", OR, {{4,0xC0,0x00}} },
	{ "Card Verification Results (CVR): Second GENERATE AC RFU", OR, {{4,0xC0,0xC0}} },
	{ "Card Verification Results (CVR): Second GENERATE AC returned TC", OR, {{4,0xC0,0x40}} },
	{ "Card Verification Results (CVR): GPO returned AAC", OR, {{4,0x30,0x00}} },
	{ "Card Verification Results (CVR): GPO RFU", OR, {{4,0x30,0x30}} },
	{ "Card Verification Results (CVR): GPO returned TC", OR, {{4,0x30,0x10}} },
	{ "Card Verification Results (CVR): GPO returned ARQC", OR, {{4,0x30,0x20}} },
	{ "Card Verification Results (CVR): Issuer Authentication performed and failed", OR, {{4,0x08,0x08}} },
	{ "Card Verification Results (CVR): CDCVM successfully performed", OR, {{4,0x04,0x04}} },
	{ "Card Verification Results (CVR): RFU", OR, {{4,0x02,0x02}} },
	{ "Card Verification Results (CVR): Unable to go online", OR, {{4,0x01,0x01}} },
	{ "Card Verification Results (CVR): Last online transaction not completed", OR, {{5,0x80,0x80}} },
	{ "Card Verification Results (CVR): PIN Try Limit exceeded", OR, {{5,0x40,0x40}} },
	{ "Card Verification Results (CVR): Exceeded velocity checking counters", OR, {{5,0x20,0x20}} },
	{ "Card Verification Results (CVR): New card", OR, {{5,0x10,0x10}} },
	{ "Card Verification Results (CVR): Issuer Authentication failure on last online transaction", OR, {{5,0x08,0x08}} },
	{ "Card Verification Results (CVR): Issuer Authentication not performed after online authorization", OR, {{5,0x04,0x04}} },
	{ "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded", OR, {{5,0x02,0x02}} },
	{ "Card Verification Results (CVR): Offline static data authentication failed on last transaction", OR, {{5,0x01,0x01}} },
	{ "Card Verification Results (CVR): Script Counter is 5", OR, {{6,0xF0,0x50}} },
	{ "Card Verification Results (CVR): Script Counter is 15", OR, {{6,0xF0,0xF0}} },
	{ "Card Verification Results (CVR): Script Counter is 13", OR, {{6,0xF0,0xD0}} },
	{ "Card Verification Results (CVR): Script Counter is 4", OR, {{6,0xF0,0x40}} },
	{ "Card Verification Results (CVR): Script Counter is 10", OR, {{6,0xF0,0xA0}} },
	{ "Card Verification Results (CVR): Script Counter is 9", OR, {{6,0xF0,0x90}} },
	{ "Card Verification Results (CVR): Script Counter is 12", OR, {{6,0xF0,0xC0}} },
	{ "Card Verification Results (CVR): Script Counter is 6", OR, {{6,0xF0,0x60}} },
	{ "Card Verification Results (CVR): Script Counter is 8", OR, {{6,0xF0,0x80}} },
	{ "Card Verification Results (CVR): Script Counter is 11", OR, {{6,0xF0,0xB0}} },
	{ "Card Verification Results (CVR): Script Counter is 2", OR, {{6,0xF0,0x20}} },
	{ "Card Verification Results (CVR): Script Counter is 14", OR, {{6,0xF0,0xE0}} },
	{ "Card Verification Results (CVR): Script Counter is 7", OR, {{6,0xF0,0x70}} },
	{ "Card Verification Results (CVR): Script Counter is 1", OR, {{6,0xF0,0x10}} },
	{ "Card Verification Results (CVR): Script Counter is 3", OR, {{6,0xF0,0x30}} },
	{ "Card Verification Results (CVR): Issuer Script processing failed", OR, {{6,0x08,0x08}} },
	{ "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction", OR, {{6,0x04,0x04}} },
	{ "Card Verification Results (CVR): Offline dynamic data authentication performed", OR, {{6,0x02,0x02}} },
	{ "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card", OR, {{6,0x01,0x01}} },
	{ "Card Verification Results (CVR): Consumer Device is not in debug mode", OR, {{7,0x80,0x80}} },
	{ "Card Verification Results (CVR): Consumer Device is not a rooted device", OR, {{7,0x40,0x40}} },
	{ "Card Verification Results (CVR): Mobile Application is not hooked", OR, {{7,0x20,0x20}} },
	{ "Card Verification Results (CVR): Mobile Application integrity is intact", OR, {{7,0x10,0x10}} },
	{ "Card Verification Results (CVR): Consumer Device has data connectivity", OR, {{7,0x08,0x08}} },
	{ "Card Verification Results (CVR): Consumer Device is genuine", OR, {{7,0x04,0x04}} },
	{ "Card Verification Results (CVR): CDCVM successfully performed", OR, {{7,0x02,0x02}} },
	{ "Card Verification Results (CVR): Secure Messaging uses EMV Session key-based derivation", OR, {{7,0x01,0x01}} },
}, },
{ "issuer authentication data with card status update", "emv_issuer_auth_data_get_string_list", "0000000000000000", {4, 5, 6, 7}, {
	{ "Card Status Update (CSU): Proprietary Authentication Data Included", OR, {{4,0xF0,0x80}} },
	{ "Card Status Update (CSU): PIN Try Counter = 10", OR, {{4,0x7F,0x0A}} },
	{ "Card Status Update (CSU): PIN Try Counter = 1", OR, {{4,0x7F,0x01}} },
	{ "Card Status Update (CSU): PIN Try Counter = 6", OR, {{4,0x7F,0x06}} },
	{ "Card Status Update (CSU): PIN Try Counter = 11", OR, {{4,0x7F,0x0B}} },
	{ "Card Status Update (CSU): PIN Try Counter = 2", OR, {{4,0x7F,0x02}} },
	{ "Card Status Update (CSU): PIN Try Counter = 3", OR, {{4,0x7F,0x03}} },
	{ "Card Status Update (CSU): PIN Try Counter = 7", OR, {{4,0x7F,0x07}} },
	{ "Card Status Update (CSU): PIN Try Counter = 13", OR, {{4,0x7F,0x0D}} },
	{ "Card Status Update (CSU): PIN Try Counter = 5", OR, {{4,0x7F,0x05}} },
	{ "Card Status Update (CSU): PIN Try Counter = 14", OR, {{4,0x7F,0x0E}} },
	{ "Card Status Update (CSU): PIN Try Counter = 8", OR, {{4,0x7F,0x08}} },
	{ "Card Status Update (CSU): PIN Try Counter = 15", OR, {{4,0x7F,0x0F}} },
	{ "Card Status Update (CSU): PIN Try Counter = 4", OR, {{4,0x7F,0x04}} },
	{ "Card Status Update (CSU): PIN Try Counter = 12", OR, {{4,0x7F,0x0C}} },
	{ "Card Status Update (CSU): PIN Try Counter = 9", OR, {{4,0x7F,0x09}} },
	{ "Card Status Update (CSU): Issuer Approves Online Transaction", OR, {{5,0x80,0x80}} },
	{ "Card Status Update (CSU): Card Block", OR, {{5,0x40,0x40}} },
	{ "Card Status Update (CSU): Application Block", OR, {{5,0x20,0x20}} },
	{ "Card Status Update (CSU): Update PIN Try Counter", OR, {{5,0x10,0x10}} },
	{ "Card Status Update (CSU): Set Go Online on Next Transaction", OR, {{5,0x08,0x08}} },
	{ "Card Status Update (CSU): CSU Created by Proxy for the Issuer", OR, {{5,0x04,0x04}} },
	{ "Card Status Update (CSU): Set Offline Counters to Upper Offline Limits", OR, {{5,0x03,0x01}} },
	{ "Card Status Update (CSU): Reset Offline Counters to Zero", OR, {{5,0x03,0x02}} },
	{ "Card Status Update (CSU): Do Not Update Offline Counters", OR, {{5,0x03,0x00}} },
	{ "Card Status Update (CSU): Add Transaction to Offline Counter", OR, {{5,0x03,0x03}} },
}, },
{ "terminal transaction qualifiers", "emv_ttq_get_string_list", "00000000", {0, 1, 2, 3}, {
	{ "Mag-stripe mode supported", OR, {{0,0x80,0x80}} },
	{ "Mag-stripe mode not supported", OR, {{0,0x80,0x00}} },
	{ "RFU", OR, {{0,0x40,0x40}} },
	{ "EMV mode supported", OR, {{0,0x20,0x20}} },
	{ "EMV mode not supported", OR, {{0,0x20,0x00}} },
	{ "EMV contact chip supported", OR, {{0,0x10,0x10}} },
	{ "EMV contact chip not supported", OR, {{0,0x10,0x00}} },
	{ "Offline-only reader", OR, {{0,0x08,0x08}} },
	{ "Online capable reader", OR, {{0,0x08,0x00}} },
	{ "Online PIN supported", OR, {{0,0x04,0x04}} },
	{ "Online PIN not supported", OR, {{0,0x04,0x00}} },
	{ "Signature supported", OR, {{0,0x02,0x02}} },
	{ "Signature not supported", OR, {{0,0x02,0x00}} },
	{ "Offline Data Authentication for Online Authorizations supported", OR, {{0,0x01,0x01}} },
	{ "Offline Data Authentication for Online Authorizations not supported", OR, {{0,0x01,0x00}} },
	{ "Online cryptogram required", OR, {{1,0x80,0x80}} },
	{ "Online cryptogram not required", OR, {{1,0x80,0x00}} },
	{ "CVM required", OR, {{1,0x40,0x40}} },
	{ "CVM not required", OR, {{1,0x40,0x00}} },
	{ "(Contact Chip) Offline PIN supported", OR, {{1,0x20,0x20}} },
	{ "(Contact Chip) Offline PIN not supported", OR, {{1,0x20,0x00}} },
	{ "RFU", OR, {{1,0x1F,ANY}} },
	{ "Issuer Update Processing supported", OR, {{2,0x80,0x80}} },
	{ "Issuer Update Processing not supported", OR, {{2,0x80,0x00}} },
	{ "Consumer Device CVM supported", OR, {{2,0x40,0x40}} },
	{ "Consumer Device CVM not supported", OR, {{2,0x40,0x00}} },
	{ "Consumer Device CVM required", OR, {{2,0x08,0x08}} },
	{ "RFU", OR, {{2,0x37,ANY}} },
	{ "fDDA v1.0 Supported", OR, {{3,0x80,0x80}} },
	{ "RFU", OR, {{3,0x7F,ANY}} },
}, },
{ "enhanced contactless reader capabilities", "emv_amex_enh_cl_reader_caps_get_string_list", "00000000", {0, 1, 2, 3}, {
	{ "Contact mode supported", OR, {{0,0x80,0x80}} },
	{ "Contactless Mag-Stripe Mode supported", OR, {{0,0x40,0x40}} },
	{ "Contactless EMV full online mode supported (legacy feature and no longer supported)", OR, {{0,0x20,0x20}} },
	{ "Contactless EMV partial online mode supported", OR, {{0,0x10,0x10}} },
	{ "Contactless Mobile Supported", OR, {{0,0x08,0x08}} },
	{ "Try Another Interface after a decline", OR, {{0,0x04,0x04}} },
	{ "RFU", OR, {{0,0x03,ANY}} },
	{ "Mobile CVM supported", OR, {{1,0x80,0x80}} },
	{ "Online PIN supported", OR, {{1,0x40,0x40}} },
	{ "Signature supported", OR, {{1,0x20,0x20}} },
	{ "Plaintext Offline PIN supported", OR, {{1,0x10,0x10}} },
	{ "RFU", OR, {{1,0x0F,ANY}} },
	{ "Reader is offline only", OR, {{2,0x80,0x80}} },
	{ "CVM Required", OR, {{2,0x40,0x40}} },
	{ "RFU", OR, {{2,0x3F,ANY}} },
	{ "Terminal exempt from No CVM checks", OR, {{3,0x80,0x80}} },
	{ "Delayed Authorisation Terminal", OR, {{3,0x40,0x40}} },
	{ "Transit Terminal", OR, {{3,0x20,0x20}} },
	{ "RFU", OR, {{3,0x18,ANY}} },
	{ "C-4 kernel version 2.2 - 2.3", OR, {{3,0x07,0x01}} },
	{ "C-4 kernel version 2.4 - 2.6", OR, {{3,0x07,0x02}} },
	{ "C-4 kernel version 2.7", OR, {{3,0x07,0x03}} },
	{ "C-4 kernel version unknown", OR, {{3,0x07,0x00}, {3,0x04,ANY}} },
}, },
};
struct Code { const char *code, *text; };
// ISO 8583:2021 J.2.2.2
static const std::vector<Code> ARCS = {
	{ "00", "Approved or completed successfully" },
	{ "01", "Refer to card issuer" },
	{ "02", "Refer to card issuer's special conditions" },
	{ "03", "Invalid merchant" },
	{ "04", "Pick-up" },
	{ "05", "Do not honour" },
	{ "06", "Error" },
	{ "07", "Pick-up card, special condition" },
	{ "08", "Honour with identification" },
	{ "09", "Request in progress" },
	{ "0A", "No reason to decline" },
	{ "0B", "Approved but fees disputed" },
	{ "0C", "Approved, unable to process online" },
	{ "0D", "Approved, transaction processed offline" },
	{ "0E", "Approved, transaction processed offline after referral" },
	{ "10", "Approved for partial amount" },
	{ "11", "Approved (VIP)" },
	{ "12", "Invalid transaction" },
	{ "13", "Invalid amount" },
	{ "14", "Invalid card/cardholder number" },
	{ "15", "No such issuer (invalid IIN)" },
	{ "16", "Approved, update track 3" },
	{ "17", "Customer cancellation" },
	{ "18", "Customer dispute" },
	{ "19", "Re-enter transaction" },
	{ "1A", "Additional consumer authentication required" },
	{ "1B", "Cashback not allowed" },
	{ "1C", "Cashback amount exceeded" },
	{ "1D", "Surcharge amount not permitted for card product" },
	{ "1E", "Surcharge not permitted by selected network" },
	{ "1F", "Exceeds pre-authorized amount" },
	{ "1G", "Currency unacceptable to card issuer" },
	{ "1H", "Authorization lifecycle unacceptable" },
	{ "1I", "Authorization lifecycle has expired" },
	{ "1J", "Message sequence number error" },
	{ "1K", "Payment date invalid" },
	{ "1L", "Stop payment order - Specific pre-authorized payment" },
	{ "1M", "Stop payment order - All pre-authorized payments for merchant" },
	{ "1N", "Stop payment order - Account" },
	{ "1O", "Recurring data error" },
	{ "1P", "Scheduled transactions exist" },
	{ "1W", "Cheque already posted" },
	{ "1X", "Declined, unable to process offline" },
	{ "1Y", "Declined, transaction processed offline" },
	{ "1Z", "Declined, transaction processed offline after referral" },
	{ "20", "Invalid response" },
	{ "21", "No action taken" },
	{ "22", "Suspected malfunction" },
	{ "23", "Unacceptable transaction fee" },
	{ "24", "File update not supported by receiver" },
	{ "25", "Unable to locate record on file" },
	{ "26", "Duplicate file update record, old record replaced" },
	{ "27", "File update field edit error" },
	{ "28", "File update file locked out" },
	{ "29", "File update not successful" },
	{ "2A", "Duplicate, new record rejected" },
	{ "2B", "Unknown file" },
	{ "2C", "Invalid security code" },
	{ "2D", "Database error" },
	{ "2E", "Update not allowed" },
	{ "2F", "Not authorized and fees disputed" },
	{ "30", "Format error" },
	{ "31", "Acquirer bank not supported" },
	{ "32", "Completed partially" },
	{ "33", "Expired card" },
	{ "34", "Suspected fraud" },
	{ "35", "Card acceptor contact acquirer" },
	{ "36", "Restricted card" },
	{ "37", "Card acceptor call acquirer security" },
	{ "38", "Allowable PIN tries exceeded" },
	{ "39", "No credit account" },
	{ "3A", "Suspected counterfeit card, pick up card" },
	{ "3B", "Daily withdrawal uses exceeded" },
	{ "3C", "Daily withdrawal amount exceeded" },
	{ "40", "Requested function not supported" },
	{ "41", "Lost card, pick-up" },
	{ "42", "No universal account" },
	{ "43", "Stolen card, pick-up" },
	{ "44", "No investment account" },
	{ "45", "No account of type requested" },
	{ "46", "Closed account, or restricted for closing" },
	{ "47", "From account bad status" },
	{ "48", "To account bad status" },
	{ "49", "Bad debt" },
	{ "4A", "Card not effective" },
	{ "4B", "Closed savings account, or restricted for closing" },
	{ "4C", "Closed credit account or restricted for closing" },
	{ "4D", "Closed credit facility cheque account or restricted for closing" },
	{ "4E", "Closed cheque account or restricted for closing" },
	{ "51", "Not sufficient funds" },
	{ "52", "No chequing account" },
	{ "53", "No savings account" },
	{ "54", "Expired card" },
	{ "55", "Incorrect personal identification number" },
	{ "56", "No card record" },
	{ "57", "Transaction not permitted to cardholder" },
	{ "58", "Transaction not permitted to terminal" },
	{ "59", "Suspected fraud" },
	{ "5A", "Suspected counterfeit card" },
	{ "5B", "Transaction does not fulfill Anti-Money Laundering requirements" },
	{ "5C", "Transaction not supported by the card issuer" },
	{ "60", "Card acceptor contact acquirer" },
	{ "61", "Exceeds withdrawal amount limit" },
	{ "62", "Restricted card" },
	{ "63", "Security violation" },
	{ "64", "Original amount incorrect" },
	{ "65", "Exceeds withdrawal frequency limit" },
	{ "66", "Card acceptor call acquirer's security department" },
	{ "67", "Hard capture (requires that card be picked up at ATM)" },
	{ "68", "Response received too late" },
	{ "6P", "Verification data failed" },
	{ "6Q", "No communication keys available for use" },
	{ "6R", "MAC key sync error" },
	{ "6S", "MAC incorrect" },
	{ "6T", "Security software/hardware error - try again" },
	{ "6U", "Security software/hardware error - do not retry" },
	{ "6V", "Encryption key sync error" },
	{ "6W", "Key verification failed. Key check value does not match" },
	{ "6X", "Key sync error" },
	{ "6Y", "Missing required data to verify/process PIN" },
	{ "6Z", "Invalid PIN block" },
	{ "70", "PIN data required" },
	{ "71", "New PIN invalid" },
	{ "72", "PIN change required" },
	{ "73", "PIN is not allowed for transaction" },
	{ "74", "PIN length error" },
	{ "75", "Allowable number of PIN tries exceeded" },
	{ "8A", "Reconciled, in balance" },
	{ "8B", "Amount not reconciled, totals provided" },
	{ "8C", "Totals not available" },
	{ "8D", "Not reconciled, totals provided" },
	{ "8E", "Ineligible to receive financial position information" },
	{ "8F", "Reconciliation cutover or checkpoint error" },
	{ "8G", "Advice acknowledged, no financial liability accepted" },
	{ "8H", "Advice acknowledged, financial liability accepted" },
	{ "8I", "Message number out of sequence" },
	{ "8W", "Perform Stand-In Processing (STIP)" },
	{ "8X", "Currently unable to perform request; try later" },
	{ "8Y", "Card issuer signed off" },
	{ "8Z", "Card issuer timed out" },
	{ "90", "Cutoff is in process (switch ending a day's business and starting the next. Transaction can be sent again in a few minutes)" },
	{ "91", "Issuer or switch is unavailable or inoperative" },
	{ "92", "Financial institution or intermediate network facility cannot be found for routing" },
	{ "93", "Transaction cannot be completed. Violation of law" },
	{ "94", "Duplicate transmission" },
	{ "95", "Reconcile error" },
	{ "96", "System malfunction" },
	{ "9A", "Violation of business arrangement" },
	{ "9B", "No matching original transaction" },
	{ "9C", "Original transaction was declined" },
	{ "9D", "Bank not found" },
	{ "9E", "Bank not effective" },
	{ "9F", "Information not on file" },
};
static const std::vector<Code> DEVICES = {
	{ "00", "Card" },
	{ "01", "Mobile Phone or Smartphone with Mobile Network Operator (MNO) controlled removable secure element (SIM or UICC) personalized for use with a mobile phone or smartphone" },
	{ "02", "Key Fob" },
	{ "03", "Watch using a contactless chip or a fixed (non-removable) secure element not controlled by the MNO" },
	{ "04", "Mobile Tag" },
	{ "05", "Wristband" },
	{ "06", "Mobile Phone Case or Sleeve" },
	{ "07", "Mobile phone or smartphone with a fixed (non-removable) secure element controlled by the MNO, for example, code division multiple access (CDMA)" },
	{ "08", "Removable secure element not controlled by the MNO, for example, memory card personalized for used with a mobile phone or smartphone" },
	{ "09", "Mobile Phone or smartphone with a fixed (non-removable) secure element not controlled by the MNO" },
	{ "10", "MNO controlled removable secure element (SIM or UICC) personalized for use with a tablet or e-book" },
	{ "11", "Tablet or e-book with a fixed (non-removable) secure element controlled by the MNO" },
	{ "12", "Removable secure element not controlled by the MNO, for example, memory card personalized for use with a tablet or e-book" },
	{ "13", "Tablet or e-book with fixed (non-removable) secure element not controlled by the MNO" },
	{ "14", "Mobile phone or smartphone with a payment application running in a host processor" },
	{ "15", "Tablet or e-book with a payment application running in a host processor" },
	{ "16", "Mobile phone or smartphone with a payment application running in the Trusted Execution Environment (TEE) of a host processor" },
	{ "17", "Tablet or e-book with a payment application running in the TEE of a host processor" },
	{ "18", "Watch with a payment application running in the TEE of a host processor" },
	{ "19", "Watch with a payment application running in a host processor" },
	{ "20", "Card" },
	{ "21", "Phone (Mobile phone)" },
	{ "22", "Tablet/e-reader (Tablet computer or e-reader)" },
	{ "23", "Watch/Wristband (Watch or wristband, including a fitness band, smart strap, disposable band, watch add-on, and security/ID band)" },
	{ "24", "Sticker" },
	{ "25", "PC (PC or laptop)" },
	{ "26", "Device Peripheral (Mobile phone case or sleeve)" },
	{ "27", "Tag (Key fob or mobile tag)" },
	{ "28", "Jewelry (Ring, bracelet, necklace, and cuff links)" },
	{ "29", "Fashion Accessory (Handbag, bag charm, and glasses)" },
	{ "30", "Garment (Dress)" },
	{ "31", "Domestic Appliance (Refrigerator, washing machine)" },
	{ "32", "Vehicle (Vehicle, including vehicle attached devices)" },
	{ "33", "Media/Gaming Device (Media or gaming device, including a set top box, media player, and television)" },
};
