package com.finproto.user;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;

/** A message without fields that a user of the library might write. */
public class Nothing implements BinaryCodec {
  @Override
  public void encode(ByteBuf b) {}

  @Override
  public void decode(ByteBuf b) {}

  @Override
  public int hashCode() {
    return 5;
  }

  @Override
  public boolean equals(Object o) {
    return o != null && o.getClass() == Nothing.class;
  }

  @Override
  public String toString() {
    return "Nothing []";
  }
}
