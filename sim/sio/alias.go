// Code generated by tools/genshim; DO NOT EDIT.

package sio

import io "io"

type ByteReader = io.ByteReader
type ByteScanner = io.ByteScanner
type ByteWriter = io.ByteWriter
type Closer = io.Closer

var Copy = io.Copy
var CopyBuffer = io.CopyBuffer
var CopyN = io.CopyN
var Discard = io.Discard
var EOF = io.EOF
var ErrNoProgress = io.ErrNoProgress
var ErrShortBuffer = io.ErrShortBuffer
var ErrShortWrite = io.ErrShortWrite
var ErrUnexpectedEOF = io.ErrUnexpectedEOF
var LimitReader = io.LimitReader

type LimitedReader = io.LimitedReader

var MultiReader = io.MultiReader
var MultiWriter = io.MultiWriter
var NewOffsetWriter = io.NewOffsetWriter
var NewSectionReader = io.NewSectionReader
var NopCloser = io.NopCloser

type OffsetWriter = io.OffsetWriter

var ReadAll = io.ReadAll
var ReadAtLeast = io.ReadAtLeast

type ReadCloser = io.ReadCloser

var ReadFull = io.ReadFull

type ReadSeekCloser = io.ReadSeekCloser
type ReadSeeker = io.ReadSeeker
type ReadWriteCloser = io.ReadWriteCloser
type ReadWriteSeeker = io.ReadWriteSeeker
type ReadWriter = io.ReadWriter
type Reader = io.Reader
type ReaderAt = io.ReaderAt
type ReaderFrom = io.ReaderFrom
type RuneReader = io.RuneReader
type RuneScanner = io.RuneScanner
type SectionReader = io.SectionReader

const SeekCurrent = io.SeekCurrent
const SeekEnd = io.SeekEnd
const SeekStart = io.SeekStart

type Seeker = io.Seeker
type StringWriter = io.StringWriter

var TeeReader = io.TeeReader

type WriteCloser = io.WriteCloser
type WriteSeeker = io.WriteSeeker

var WriteString = io.WriteString

type Writer = io.Writer
type WriterAt = io.WriterAt
type WriterTo = io.WriterTo
