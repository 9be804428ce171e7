package com.finproto.user;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import java.util.Objects;

/** A small message that a user of the library might write. */
public class Item implements BinaryCodec {
  private short x;
  private String y;

  public short getX() {
    return x;
  }

  public void setX(short x) {
    this.x = x;
  }

  public String getY() {
    return y;
  }

  public void setY(String y) {
    this.y = y;
  }

  @Override
  public void encode(ByteBuf b) {
    b.writeShortLE(x);
    writeFixedString(b, y, 3);
  }

  @Override
  public void decode(ByteBuf b) {
    x = b.readShortLE();
    y = readFixedString(b, 3);
  }

  @Override
  public int hashCode() {
    return Objects.hash(x, y);
  }

  @Override
  public boolean equals(Object o) {
    return o != null && o.getClass() == Item.class && x == ((Item) o).x && Objects.equals(y, ((Item) o).y);
  }

  @Override
  public String toString() {
    return "Item [x=" + x + ", y=" + y + "]";
  }
}
