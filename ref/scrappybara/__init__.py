"""Import core names of Scrappybara.
import scrappybara as sb
"""
from scrappybara.preprocessing.tokenizer import Tokenizer
from scrappybara.preprocessing.sentencizer import Sentencizer

from scrappybara.pipeline.document import Document
from scrappybara.pipeline.pipeline import Pipeline

from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple
