// Package libxml stands in for github.com/amarin/libxml, which is not available
// offline: a pull loop over encoding/xml that hands every token to a processor.
package libxml

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"

	"verif.local/simrt/os"
)

// Error identifies the package's errors.
var Error = errors.New("libxml")

// ElementProcessor consumes tokens.
type ElementProcessor interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessEndElement(element xml.EndElement) error
	ProcessCharData(data xml.CharData) error
	ProcessComment(comment xml.Comment) error
	ProcessProcInst(inst xml.ProcInst) error
	ProcessDirective(directive xml.Directive) error
}

// ParseXMLFile feeds a file to the processor.
func ParseXMLFile(filePath string, processor ElementProcessor) error {
	f, err := os.Open(filePath)
	if err != nil {
		return fmt.Errorf("%v: open: %w", Error, err)
	}
	defer func() { _ = f.Close() }()
	return ParseXMLStream(f, processor)
}

// ParseXMLStream feeds a stream to the processor.
func ParseXMLStream(r io.Reader, processor ElementProcessor) error {
	d := xml.NewDecoder(r)
	for {
		tok, err := d.Token()
		if tok == nil {
			if err == nil || err == io.EOF {
				return nil
			}
			return fmt.Errorf("%v: token: %w", Error, err)
		}
		switch t := tok.(type) {
		case xml.StartElement:
			err = processor.ProcessStartElement(t)
		case xml.EndElement:
			err = processor.ProcessEndElement(t)
		case xml.CharData:
			err = processor.ProcessCharData(t)
		case xml.Comment:
			err = processor.ProcessComment(t)
		case xml.ProcInst:
			err = processor.ProcessProcInst(t)
		case xml.Directive:
			err = processor.ProcessDirective(t)
		}
		if err != nil {
			return fmt.Errorf("%v: %w", Error, err)
		}
	}
}
