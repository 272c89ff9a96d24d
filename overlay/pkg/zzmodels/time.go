package zzmodels

// The local time zone is UTC.
//
//sym:zero time.Local
func timeZone() {}

// Charsets that are not converted symbolically.
//
//sym:zero golang.org/x/text/encoding/korean.EUCKR golang.org/x/text/encoding/simplifiedchinese.GB18030 golang.org/x/text/encoding/simplifiedchinese.GBK golang.org/x/text/encoding/simplifiedchinese.HZGB2312 golang.org/x/text/encoding/traditionalchinese.Big5
func charsets() {}
