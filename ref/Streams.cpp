/**
 * @file Streams.cpp
 * @author Pekka Mikkola <pmikkol@gmail.com>
 * @author Dominik Kempa <dominik.kempa@cs.helsinki.fi>
 *
 * @section LICENSE
 *
 * This file is part of bwtc.
 *
 * bwtc is free software: you can redistribute it and/or modify
 * it under the terms of the GNU General Public License as published by
 * the Free Software Foundation, either version 3 of the License, or
 * (at your option) any later version.
 *
 * bwtc is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
 * GNU General Public License for more details.
 *
 * You should have received a copy of the GNU General Public License
 * along with bwtc.  If not, see <http://www.gnu.org/licenses/>.
 *
 * @section DESCRIPTION
 *
 * Implementation for InStream and OutStream.
 */

#include <cassert>
#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>

#include <fstream>
#include <iostream>
#include <iterator>
#include <string>
#include <algorithm>

#include "globaldefs.hpp"
#include "Streams.hpp"

#include "Profiling.hpp"

namespace bwtc {

/* Losing data silently isn't an option, so failing operation is fatal. */
static void ioError(const std::string& name, const char *fallback) {
  perror(name != "" ? name.c_str() : fallback);
  exit(1);
}

void requireDifferentFiles(const std::string& input,
                           const std::string& output) {
  struct stat in, out;
  if (output == "" || stat(output.c_str(), &out) != 0) return;
  if ((input != "" ? stat(input.c_str(), &in) : fstat(0, &in)) != 0) return;
  if (S_ISREG(in.st_mode) && in.st_dev == out.st_dev && in.st_ino == out.st_ino) {
    fprintf(stderr, "%s: input file is output file\n", output.c_str());
    exit(1);
  }
}

RawOutStream::RawOutStream(const std::string& file_name)
    :m_name(file_name), m_holding(false), m_heldPosition(0) {
  m_buffer = new byte[kBufferSize];
  if (!m_buffer) {
    fprintf(stderr,"Memory allocation error!\n");
    exit(1);
  }
  if (m_name != "") {
    m_fileptr = fopen(m_name.c_str(), "w");
    if (!m_fileptr) {
      perror(m_name.c_str());
      exit(1);
    }
  } else {
    m_fileptr = stdout;
  }
  m_filled = 0;
  assert(m_fileptr);
  int flags = fcntl(fileno(m_fileptr), F_GETFL);
  m_seekable = (flags == -1 || !(flags & O_APPEND)) && ftell(m_fileptr) != -1;
}

RawOutStream::~RawOutStream() {
  PROFILE("RawOutStream::~RawOutStream()");
  flush();
  writeHeld();
  if (m_fileptr != stdout && fclose(m_fileptr) != 0) {
    ioError(m_name, "stdout");
  }
  delete[] m_buffer;
}

void RawOutStream::writeByte(byte b) {
  m_buffer[m_filled++] = b;
  if (m_filled == kBufferSize) {
    writeToFile(m_buffer, m_filled);
    m_filled = 0;
  }
}

void RawOutStream::writeToFile(const byte *data, size_t size) {
  if (m_holding) {
    m_held.insert(m_held.end(), data, data + size);
    return;
  }
  if (fwrite(data, 1, size, m_fileptr) != size) ioError(m_name, "stdout");
  m_heldPosition += size;
}

void RawOutStream::writeHeld() {
  if (!m_holding) return;
  m_holding = false;
  if (!m_held.empty()) writeToFile(&m_held[0], m_held.size());
  m_held.clear();
  if (fflush(m_fileptr) != 0) ioError(m_name, "stdout");
}

void RawOutStream::flush() {
  if (m_filled > 0) {
    writeToFile(m_buffer, m_filled);
    m_filled = 0;
  }
  if (fflush(m_fileptr) != 0) ioError(m_name, "stdout");
}

long int RawOutStream::getPos() {
  flush();
  if (!m_seekable) {
    writeHeld();
    m_holding = true;
    return m_heldPosition;
  }
  return ftell(m_fileptr);
}

void RawOutStream::writeBlock(const byte *begin, const byte *end) {
  uint64 size = end - begin;
  if (m_filled + size < kBufferSize) {
    std::copy(begin, end, m_buffer + m_filled);
    m_filled += size;
  } else {
    flush();
    writeToFile(begin, size);
  }
}

void RawOutStream::write48bits(uint64 to_written, long int position) {
  assert((to_written & (((uint64)0xFFFF) << 48)) == 0);
  flush();
  if (m_holding) {
    assert(position >= m_heldPosition);
    assert(position + 6 <= m_heldPosition + (long int)m_held.size());
    for(int i = 5; i >= 0; --i) {
      m_held[position++ - m_heldPosition] = 0xFF & (to_written >> i*8);
    }
    return;
  }
  long int current = ftell(m_fileptr);
  // fseeking with negative offset from SEEK_CUR might be faster.
  if (fseek(m_fileptr, position, SEEK_SET) != 0) ioError(m_name, "stdout");
  for(int i = 5; i >= 0; --i) {
    byte b = 0xFF & (to_written >> i*8);
    writeToFile(&b, 1);
  }
  if (fseek(m_fileptr, current, SEEK_SET) != 0) ioError(m_name, "stdout");
}

uint64 RawInStream::read48bits() {
  uint64 result = 0;
  for(int i = 0; i < 6; ++i) {
    result <<= 8;
    result |= fetchExistingByte();
  }
  return result;
}

RawInStream::RawInStream(const std::string &file_name) :
    m_name(file_name), m_buffer(0), m_bitsInBuffer(0)
{
  m_bigbuf = new byte[kBigbufSize];
  if (!m_bigbuf) {
    fprintf(stderr,"Memory allocation error!\n");
    exit(1);
  }
  if (m_name != "") {
    m_fileptr = fopen(m_name.c_str(), "r");
    if (!m_fileptr) {
      perror(m_name.c_str());
      exit(1);
    }
  } else {
    m_fileptr = stdin;
  }
  m_bigbuf_left = 0;
  m_bigbuf_pos = 0;
  assert(m_fileptr);
}

RawInStream::~RawInStream() {
  if (m_fileptr != stdin) {
    fclose(m_fileptr);
  }
  delete[] m_bigbuf;
}

size_t RawInStream::readBlock(byte* to, size_t max_block_size) {
  assert(m_bitsInBuffer == 0);
  uint64 have_read = 0;
  int32 c;
  while (have_read < max_block_size && (c = fetchByte()) != EOF) {
    to[have_read++] = static_cast<byte>(c);
  }
  return have_read;
}

int32 RawInStream::fetchByte() {
  if (m_bigbuf_left <= 0) {
    m_bigbuf_pos = 0;
    m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
    if (ferror(m_fileptr)) ioError(m_name, "stdin");
    if (m_bigbuf_left <= 0) return EOF;
  }
  --m_bigbuf_left;
  return m_bigbuf[m_bigbuf_pos++];
}

byte RawInStream::fetchExistingByte() {
  int32 b = fetchByte();
  if (b == EOF) {
    fprintf(stderr, "%s: Unexpected end of file\n",
            m_name != "" ? m_name.c_str() : "stdin");
    exit(1);
  }
  return static_cast<byte>(b);
}

int32 RawInStream::peekByte() {
  if (m_bigbuf_left <= 0) {
    m_bigbuf_pos = 0;
    m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
    if (ferror(m_fileptr)) ioError(m_name, "stdin");
    if (m_bigbuf_left <= 0) return EOF;
  }
  return m_bigbuf[m_bigbuf_pos];
}

} //namespace bwtc

